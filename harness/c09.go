package main

import (
	"reflect"
	"strconv"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c09In struct {
	P1 byte
	I  int
	B  bool
	C  bool
	F  float64
	S  string
	P2 byte
}

type c09Rec struct {
	P1 byte
	I  int
	B  bool
	C  bool
	F  float64
	S  string
	V  c09In
	In *c09In
	P2 byte
}

var c09F = []string{"I", "F", "S", "B"}

// text of a value of a scalar kind as rendered
func c09Text(kind int, val interface{}) string {
	switch kind {
	case kInt:
		return strconv.Itoa(val.(int))
	case kFloat:
		return strconv.FormatFloat(val.(float64), 'f', -1, 64)
	case kStr:
		return val.(string)
	default:
		return strconv.FormatBool(val.(bool))
	}
}

func c09Any(kind int, name string) interface{} {
	switch kind {
	case kInt:
		return sym.Int(name)
	case kFloat:
		return sym.Float64(name)
	case kStr:
		return sym.Str(name, 2)
	default:
		return sym.Bool(name)
	}
}

// c09Src is an expression of the given kind with its value.
func c09Src(w *world, kind int) (string, interface{}) {
	src := sym.Choice("src", wSources+2)
	if src == wSources {
		switch kind {
		case kInt:
			return "41", 41
		case kFloat:
			return "2.5", 2.5
		case kStr:
			return "\"lit\"", "lit"
		default:
			return "true", true
		}
	}
	if src == wSources+1 {
		x, y := c09Any(kind, "x"), c09Any(kind, "y")
		a := w.put(0, kind, 0, x)
		b := w.put(1, kind, 4, y)
		switch kind {
		case kInt:
			return a + " - " + b, x.(int) - y.(int)
		case kFloat:
			return a + " - " + b, x.(float64) - y.(float64)
		case kStr:
			return a + " + " + b, x.(string) + y.(string)
		default:
			return a + " && " + b, sym.And(x.(bool), y.(bool))
		}
	}
	x := c09Any(kind, "x")
	return w.put(0, kind, src, x), x
}

// C09_scalar: every destination kind from every source kind; all neighbours keep their values.
func C09_scalar() {
	kind := sym.Choice("kind", 4)
	w := newWorld()
	src, val := c09Src(w, kind)
	old := []interface{}{7, 7.5, "seven", true}[kind]
	in := func(p byte) c09In { return c09In{P1: p, I: 101, B: true, F: 102.5, S: "i103", P2: p + 1} }
	mk := func(p byte) c09Rec {
		i := in(p + 10)
		return c09Rec{P1: p, I: 201, B: true, F: 202.5, S: "r203", V: in(p + 20), In: &i, P2: p + 1}
	}
	d, pd := mk(30), mk(60)
	f := c09F[kind]
	dests := []string{"n", "o", "d." + f, "pd." + f, "d.V." + f, "pd.V." + f, "d.In." + f, "pd.In." + f}
	k := sym.Choice("dest", len(dests))
	dest := dests[k]
	sp := []string{"$" + dest, "${" + dest + "}"}[sym.Choice("spelling", 2)]
	if k == 0 && sp[1] == '{' {
		sym.Assume(false)
	}
	w.vars = append(w.vars, v("before", "BB"), v("o", old), v("after", 9), v("d", d), v("pd", &pd), v("last", 3.5))
	dump := func(r string) string {
		return "$" + r + ".I,$" + r + ".F,$" + r + ".S,$" + r + ".B,$" + r + ".C;"
	}
	tpl := "#set(" + sp + " = " + src + ")[$" + dest + "|${" + dest + "}]$before,$o,$after,$last;" +
		dump("d") + dump("d.V") + dump("d.In") + dump("pd") + dump("pd.V") + dump("pd.In")
	out := w.run(tpl)

	set := func(r string, p *c09In) {
		if dest == r+"."+f {
			switch kind {
			case kInt:
				p.I = val.(int)
			case kFloat:
				p.F = val.(float64)
			case kStr:
				p.S = val.(string)
			default:
				p.B = val.(bool)
			}
		}
	}
	exp := func(r string, p c09In) string {
		set(r, &p)
		return strconv.Itoa(p.I) + "," + strconv.FormatFloat(p.F, 'f', -1, 64) + "," + p.S + "," + strconv.FormatBool(p.B) + "," + strconv.FormatBool(p.C) + ";"
	}
	top := func(r c09Rec) c09In { return c09In{I: r.I, B: r.B, C: r.C, F: r.F, S: r.S} }
	d0, pd0 := mk(30), mk(60)
	want := "[" + c09Text(kind, val) + "|" + c09Text(kind, val) + "]BB,"
	if dest == "o" {
		want += c09Text(kind, val)
	} else {
		want += c09Text(kind, old)
	}
	want += ",9,3.5;" + exp("d", top(d0)) + exp("d.V", d0.V) + exp("d.In", *d0.In) + exp("pd", top(pd0)) + exp("pd.V", pd0.V) + exp("pd.In", *pd0.In)
	sym.Assert(out == want, "the destination reads the value and every other variable and field is unchanged: "+dest+" = "+src)

	// memory next to the destinations
	sym.Assert(pd.P1 == 60 && pd.P2 == 61 && pd.V.P1 == 80 && pd.V.P2 == 81 && pd.In.P1 == 70 && pd.In.P2 == 71, "bytes next to the fields are untouched")
	sym.Assert(d.In.P1 == 40 && d.In.P2 == 41 && d.I == 201 && d.V.I == 101, "bytes next to the fields are untouched, the caller's copy too")
	sym.Assert(w.sameBits(), "sources are unchanged")
	sym.Reach("end")
}

type c09Wide struct {
	P0  byte
	I8  int8
	P1  byte
	U8  uint8
	P2  byte
	I16 int16
	U16 uint16
	P3  uint16
	I32 int32
	U32 uint32
	P4  uint32
	I64 int64
	U64 uint64
	U   uint
	F32 float32
	F33 float32
	P5  byte
	B   bool
	P6  byte
}

var c09WideN = []string{"I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "U", "F32", "B"}

func c09Wd(k int, r *c09Wide, n string) interface{} {
	switch k {
	case 0:
		r.I8 = sym.Int8(n)
		return r.I8
	case 1:
		r.U8 = sym.Uint8(n)
		return r.U8
	case 2:
		r.I16 = sym.Int16(n)
		return r.I16
	case 3:
		r.U16 = sym.Uint16(n)
		return r.U16
	case 4:
		r.I32 = sym.Int32(n)
		return r.I32
	case 5:
		r.U32 = sym.Uint32(n)
		return r.U32
	case 6:
		r.I64 = sym.Int64(n)
		return r.I64
	case 7:
		r.U64 = sym.Uint64(n)
		return r.U64
	case 8:
		r.U = sym.Uint(n)
		return r.U
	case 9:
		r.F32 = sym.Float32(n)
		return r.F32
	default:
		r.B = sym.Bool(n)
		return r.B
	}
}

func c09WideSame(a, b *c09Wide) bool {
	ok := a.I8 == b.I8 && a.U8 == b.U8 && a.I16 == b.I16 && a.U16 == b.U16 && a.I32 == b.I32 && a.U32 == b.U32
	ok = sym.And(ok, a.I64 == b.I64 && a.U64 == b.U64 && a.U == b.U && a.B == b.B)
	ok = sym.And(ok, a.P0 == b.P0 && a.P1 == b.P1 && a.P2 == b.P2 && a.P3 == b.P3 && a.P4 == b.P4 && a.P5 == b.P5 && a.P6 == b.P6)
	return sym.And(ok, sym.SameFloat(float64(a.F32), float64(b.F32)) && sym.SameFloat(float64(a.F33), float64(b.F33)))
}

// C09_widths: fields and variables of every width take exactly the value of a source of the same type.
func C09_widths() {
	k := sym.Choice("kind", len(c09WideN))
	f := c09WideN[k]
	fill := c09Wide{P0: 1, I8: 2, P1: 3, U8: 4, P2: 5, I16: 6, U16: 7, P3: 8, I32: 9, U32: 10, P4: 11, I64: 12, U64: 13, U: 14, F32: 15, F33: 15.5, P5: 16, B: true, P6: 17}
	pd, s, nd := fill, fill, fill
	x := c09Wd(k, &s, "x")
	type holder struct {
		N  string
		W  c09Wide
		PW *c09Wide
	}
	h := &holder{N: "h", W: fill, PW: &nd}
	vars := []kv{v("a", byte(1)), v("o", x), v("b", byte(2)), v("pd", &pd), v("s", s), v("h", h), v("x", x)}
	src := choose("src", "$x", "$s."+f)
	dest := sym.Choice("dest", 5)
	d := []string{"$pd." + f, "$h.W." + f, "$h.PW." + f, "$n", "$o"}[dest]
	tpl := "#set(" + d + " = " + src + ")"
	if dest >= 3 { // observed through another assignment
		tpl += "#set($pd." + f + " = " + d + ")"
	}
	out := render(tpl+"$h.N", vars...)
	sym.Assert(out == "h", "rendering after the assignment")
	wantPd, wantW, wantNd := fill, fill, fill
	switch dest {
	case 0, 3, 4:
		wantPd = s
	case 1:
		wantW = s
	case 2:
		wantNd = s
	}
	sym.Assert(c09WideSame(&pd, &wantPd) && c09WideSame(&h.W, &wantW) && c09WideSame(&nd, &wantNd), "exactly the assigned field takes exactly the value: "+d+" = "+src)
	sym.Reach("end")
}

// C09_neighbours: writing variables of small widths leaves the variables next to them intact.
func C09_neighbours() {
	k := sym.Choice("kind", len(c09WideN))
	var s, a, b c09Wide
	x := c09Wd(k, &s, "x")
	va := c09Wd(0, &a, "a")
	vb := c09Wd(1, &b, "b")
	pa, pb := &c09Wide{}, &c09Wide{}
	px := &c09Wide{}
	f := c09WideN[k]
	render("#set($m = $x)#set($x = $s."+f+")#set($pa.I8 = $a)#set($pb.U8 = $b)#set($px."+f+" = $m)",
		v("a", va), v("x", x), v("b", vb), v("s", s), v("pa", pa), v("pb", pb), v("px", px))
	sym.Assert(pa.I8 == a.I8 && pb.U8 == b.U8 && c09WideSame(px, &s), "variables next to the assigned one are unchanged")
	sym.Reach("end")
}

// C09_convert: a scalar of another kind is converted when stored.
func C09_convert() {
	type rec struct {
		P  byte
		I  int
		F  float64
		Q  byte
		I8 int8
		U8 uint8
	}
	x := sym.Int("x")
	f := sym.Float64("f")
	r := &rec{P: 1, I: 5, F: 5.5, Q: 2, I8: 3, U8: 4}
	w := *r
	switch sym.Choice("case", 8) {
	case 0:
		out := render("#set($d = $x)$d", v("x", x), v("d", 1.5))
		sym.Assert(out == strconv.FormatFloat(float64(x), 'f', -1, 64), "int variable stored in a float variable")
	case 1:
		render("#set($r.F = $x)", v("x", x), v("r", r))
		w.F = float64(x)
	case 2:
		sym.Assume(f > -1e15 && f < 1e15)
		out := render("#set($d = $f)$d", v("f", f), v("d", 5))
		sym.Assert(out == strconv.Itoa(int(f)), "float variable stored in an int variable")
	case 3:
		sym.Assume(f > -1e15 && f < 1e15)
		render("#set($r.I = $f)", v("f", f), v("r", r))
		w.I = int(f)
	case 4:
		out := render("#set($d = 3)$d#set($d = 7.25) $d#set($d = $x + 1) $d", v("x", x), v("d", 1.5))
		sym.Assert(out == "3 7.25 "+strconv.FormatFloat(float64(x+1), 'f', -1, 64), "int literals and computed ints stored in a float variable")
	case 5:
		render("#set($r.F = 3)#set($r.I = 4)", v("r", r))
		w.F, w.I = 3, 4
	case 6:
		render("#set($r.I8 = 100)#set($r.U8 = 200)", v("r", r))
		w.I8, w.U8 = 100, 200
	default:
		out := render("#set($d = $x)$d#set($e = $x + 1)$e", v("x", x), v("d", "str"), v("e", "s2"))
		sym.Assert(out == strconv.Itoa(x)+strconv.Itoa(x+1), "int stored in a string variable")
	}
	sym.Assert(sym.SameFloat(r.F, w.F) && r.I == w.I && r.P == w.P && r.Q == w.Q && r.I8 == w.I8 && r.U8 == w.U8, "exactly the assigned field changed")
	sym.Reach("end")
}

type c09P struct {
	P byte
	I *int
	F *float64
	S *string
	B *bool
	L *c09P
	Q byte
}

// C09_pointers: pointers are copied, nil included; values stored through pointers do not alias variables.
func C09_pointers() {
	xi, xf, xs, xb := sym.Int("i"), sym.Float64("f"), sym.Str("s", 2), sym.Bool("b")
	sym.Assume(xf == xf)
	yi, yf, ys, yb := 1, 1.5, "one", true
	l := &c09P{}
	src, dst := &c09P{P: 1, L: l, Q: 2}, &c09P{P: 3, I: &yi, F: &yf, S: &ys, B: &yb, Q: 4}
	isnil := sym.Choice("nil", 2) == 1
	if !isnil {
		src.I, src.F, src.S, src.B = &xi, &xf, &xs, &xb
	}
	k := sym.Choice("kind", 5)
	f := []string{"I", "F", "S", "B", "L"}[k]
	var pv interface{}
	switch k {
	case 0:
		pv = src.I
	case 1:
		pv = src.F
	case 2:
		pv = src.S
	case 3:
		pv = src.B
	default:
		pv = src.L
	}
	switch sym.Choice("src", 3) {
	case 0:
		render("#set($d."+f+" = $s."+f+")", v("d", dst), v("s", src))
	case 1:
		render("#set($d."+f+" = $p)", v("d", dst), v("s", src), v("p", pv))
	default:
		render("#set($n = $s."+f+")#set($d."+f+" = $n)", v("d", dst), v("s", *src))
	}
	w := c09P{P: 3, I: &yi, F: &yf, S: &ys, B: &yb, Q: 4}
	switch k {
	case 0:
		w.I = src.I
	case 1:
		w.F = src.F
	case 2:
		w.S = src.S
	case 3:
		w.B = src.B
	default:
		w.L = src.L
	}
	sym.Assert(dst.P == 3 && dst.Q == 4, "bytes next to the field are untouched")
	sym.Assert(dst.I == w.I && dst.F == w.F && dst.S == w.S && dst.B == w.B && dst.L == w.L, "exactly the assigned pointer changed: "+f)
	sym.Assert(yi == 1 && yf == 1.5 && ys == "one" && yb && (isnil || *src.I == xi), "pointed to values are unchanged")
	sym.Reach("end")
}

// C09_ptrvalues: a value stored in a pointer and a pointed-to value stored in a variable are copies.
func C09_ptrvalues() {
	x, y := sym.Int("x"), sym.Int("y")
	py := y
	src := &c09P{I: &py}
	s := sym.Str("s", 2)
	switch sym.Choice("case", 4) {
	case 0:
		out := render("#set($p = $x)#set($x = 9)#set($z = $p)$z,$x", v("x", x), v("p", &py), v("z", 1))
		sym.Assert(out == strconv.Itoa(x)+",9", "value stored in a pointer variable")
	case 1:
		out := render("#set($x = $p)#set($p = 9)#set($z = $p)$z,$x", v("x", x), v("p", &py), v("z", 1))
		sym.Assert(out == "9,"+strconv.Itoa(y), "pointed-to value stored in a variable")
	case 2:
		out := render("#set($r.I = $x)#set($x = 9)$x", v("x", x), v("r", src))
		sym.Assert(out == "9" && *src.I == x, "value stored in a pointer field")
	default:
		out := render("#set($r.S = $s)#set($s = \"q\")$s", v("s", s), v("r", src))
		sym.Assert(out == "q" && src.S != nil && *src.S == s, "value stored in a nil pointer field")
	}
	sym.Assert(py == y, "pointed-to value is unchanged")
	sym.Reach("end")
}

type c09C struct {
	P  byte
	V  c09In
	L  []int
	M  map[string]int
	A  interface{}
	Q  byte
	LS []string
}

// C09_composite: structs, slices, maps and interfaces.
func C09_composite() {
	x := sym.Int("x")
	s := sym.Str("s", 2)
	src := &c09C{V: c09In{P1: 1, I: x, S: s, F: 2.5, B: true, P2: 9}, L: []int{1, x, 3}, M: map[string]int{"k": x}, A: s, LS: []string{s, "z"}}
	dst := &c09C{P: 11, V: c09In{P1: 2, I: 5}, L: []int{8, 8, 8, 8}, M: map[string]int{"k": 8}, A: "old", Q: 12, LS: []string{"o"}}
	cp := *dst
	f := choose("field", "V", "L", "M", "A", "LS")
	var via string
	switch sym.Choice("via", 3) {
	case 0:
		via = "#set($d." + f + " = $s." + f + ")"
	case 1:
		via = "#set($n = $s." + f + ")#set($d." + f + " = $n)"
	default:
		via = "#set($n = $d." + f + ")#set($n = $s." + f + ")#set($d." + f + " = $n)"
	}
	tail := map[string]string{"V": "$d.V.I $d.V.S", "L": "#foreach($i in $d.L)$i #end", "M": "ok", "A": "$d.A", "LS": "#foreach($i in $d.LS)$i #end"}[f]
	want := map[string]string{"V": strconv.Itoa(x) + " " + s, "L": "1 " + strconv.Itoa(x) + " 3 ", "M": "ok", "A": s, "LS": s + " z "}[f]
	out := render(via+tail, v("d", dst), v("s", src))
	sym.Assert(out == want, "later reads see the assigned "+f)
	w := cp
	switch f {
	case "V":
		w.V = src.V
	case "L":
		w.L = src.L
	case "M":
		w.M = src.M
	case "A":
		w.A = src.A
	case "LS":
		w.LS = src.LS
	}
	sym.Assert(dst.P == 11 && dst.Q == 12 && dst.V == w.V && len(dst.L) == len(w.L) && dst.L[1] == w.L[1] && dst.M["k"] == w.M["k"] && dst.A == w.A && len(dst.LS) == len(w.LS) && dst.LS[0] == w.LS[0], "exactly the assigned field changed: "+f)
	sym.Reach("end")
}

// C09_structcopy: a struct assigned to a variable is a copy.
func C09_structcopy() {
	x, y := sym.Int("x"), sym.Int("y")
	src := c09In{P1: 1, I: x, S: "a"}
	switch sym.Choice("case", 3) {
	case 0:
		out := render("#set($n = $s)#set($n.I = $y)$n.I,$s.I,$n.S,$s.S", v("s", src), v("y", y))
		sym.Assert(out == strconv.Itoa(y)+","+strconv.Itoa(x)+",a,a", "writing the copy leaves the original")
	case 1:
		out := render("#set($n = $s)#set($s.I = $y)$n.I,$s.I", v("s", src), v("y", y))
		sym.Assert(out == strconv.Itoa(x)+","+strconv.Itoa(y), "writing the original leaves the copy")
	default:
		out := render("#set($a = $b)#set($b.I = $y)$a.I,$b.I", v("a", c09In{I: 3}), v("b", src), v("y", y))
		sym.Assert(out == strconv.Itoa(x)+","+strconv.Itoa(y), "assigned to an existing variable")
	}
	sym.Reach("end")
}

// C09_sequence: sequences of assignments against a reference interpreter.
func C09_sequence() {
	names := []string{"$a", "$b", "$r.I", "$n"}
	type rec struct {
		P byte
		I int
	}
	r := &rec{P: 3, I: sym.Int("r")}
	env := []int{sym.Int("a"), sym.Int("b"), r.I, 0}
	vars := []kv{v("a", env[0]), v("b", env[1]), v("r", r)}
	tpl := ""
	k := sym.N(3, 4)
	defined := false
	for i := 0; i < k; i++ {
		d := sym.Choice("d"+strconv.Itoa(i), 4)
		e := sym.Choice("e"+strconv.Itoa(i), 6)
		if e == 3 {
			sym.Assume(defined)
		}
		var ex string
		var val int
		switch e {
		case 4:
			ex, val = names[d]+" + 1", env[d]+1
			if d == 3 {
				sym.Assume(defined)
			}
		case 5:
			ex, val = "$a * $r.I", env[0]*env[2]
		default:
			ex, val = names[e], env[e]
		}
		if d == 3 {
			defined = true
		}
		tpl += "#set(" + names[d] + " = " + ex + ")"
		env[d] = val
	}
	tpl += "$a,$b,$r.I"
	want := strconv.Itoa(env[0]) + "," + strconv.Itoa(env[1]) + "," + strconv.Itoa(env[2])
	if defined {
		tpl += ",$n"
		want += "," + strconv.Itoa(env[3])
	}
	sym.Assert(render(tpl, vars...) == want, "a sequence of assignments: "+tpl)
	sym.Assert(r.P == 3, "neighbouring memory is unchanged")
	sym.Reach("end")
}

// C09_nested: assignments in every kind of body are visible after it.
func C09_nested() {
	x, y := sym.Int("x"), sym.Int("y")
	c := sym.Bool("c")
	body := choose("body", "#set($o = $x)", "#set($n = $x)#set($o = $n)", "#set($r.I = $x)#set($o = $r.I)")
	r := &c09In{I: 1}
	var tpl string
	ran := true
	switch sym.Choice("where", 6) {
	case 0:
		tpl = "#if($c)" + body + "#end"
		ran = c
	case 1:
		tpl = "#if($c)a#{else}" + body + "#end"
		ran = !c
	case 2:
		tpl = "#foreach($i in [0...2])" + body + "#end"
	case 3:
		tpl = "#for($i = 0; $i < 2; $i++)" + body + "#end"
	case 4:
		tpl = "#if($c)a#elseif(!$c)" + body + "#end"
		ran = !c
	default:
		tpl = "#foreach($i in [0...1])#if($c)" + body + "#end#end"
		ran = c
	}
	pre := ""
	if tpl[:6] == "#if($c" && (tpl[6:8] == ")a") && c {
		pre = "a"
	}
	out := render(tpl+"<$o>", v("o", y), v("x", x), v("c", c), v("r", r))
	want := y
	if ran {
		want = x
	}
	sym.Assert(out == pre+"<"+strconv.Itoa(want)+">", "assignment in a body: "+tpl)
	sym.Reach("end")
}

// C09_update: the update forms of a loop.
func C09_update() {
	n := sym.Choice("n", sym.N(4, 7))
	from := sym.Int("from")
	sym.Assume(from > -1000000 && from < 1000000)
	switch sym.Choice("case", 5) {
	case 0:
		out := render("#for($i = $from; $i < $to; $i++).#end$i,$from,$to", v("from", from), v("to", from+n))
		sym.Assert(out == dots(n)+strconv.Itoa(from+n)+","+strconv.Itoa(from)+","+strconv.Itoa(from+n), "++ adds one")
	case 1:
		out := render("#for($i = $from; $i > $to; $i--).#end$i,$from,$to", v("from", from), v("to", from-n))
		sym.Assert(out == dots(n)+strconv.Itoa(from-n)+","+strconv.Itoa(from)+","+strconv.Itoa(from-n), "-- subtracts one")
	case 2:
		out := render("#for($i = $from; $i < $to; $i += $st).#end$i,$st", v("from", from), v("to", from+3*n), v("st", 3))
		sym.Assert(out == dots(n)+strconv.Itoa(from+3*n)+",3", "+= adds the operand")
	case 3:
		out := render("#for($i = $from; $i > $to; $i -= 2).#end$i", v("from", from), v("to", from-2*n))
		sym.Assert(out == dots(n)+strconv.Itoa(from-2*n), "-= subtracts the operand")
	default:
		out := render("#for($i = 1; $i < $to; $i *= 2).#end$i", v("to", 1<<uint(n)))
		sym.Assert(out == dots(n)+strconv.Itoa(1<<uint(n)), "*= multiplies by the operand")
	}
	sym.Reach("end")
}

func dots(n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += "."
	}
	return r
}

// C09_again: assignments of one execution do not change what a later execution assigns.
func C09_again() {
	x, y := sym.Int("x"), sym.Int("y")
	p := velty.New()
	sym.Assert(p.DefineVariable("x", 0) == nil && p.DefineVariable("f", 0.5) == nil, "variables defined")
	ex, ns, err := p.Compile([]byte("#set($a = 5)#set($s = \"lit\")#set($f = 2.5)$a,$s,$f#set($a = $x)#set($s = \"other\")#set($f = 7.5),$a"))
	sym.Assert(err == nil, "compiles")
	for i, val := range []int{x, y} {
		st := ns()
		sym.Assert(st.SetValue("x", val) == nil, "set")
		sym.Assert(ex.Exec(st) == nil && st.Buffer.String() == "5,lit,2.5,"+strconv.Itoa(val), "literals keep their values in execution "+strconv.Itoa(i))
	}
	sym.Reach("end")
}

// C09_empty: nil and empty values replace what was there, and the other way round.
func C09_empty() {
	type rec struct {
		P  byte
		L  []int
		LS []string
		LB []bool
		LF []float64
		LU []uint8
		LR []c09In
		LP []*c09In
		M  map[string]int
		A  interface{}
		R  *c09In
		Q  byte
	}
	x := sym.Int("x")
	in := c09In{P1: 1, I: x, P2: 2}
	mk := func(what int) *rec {
		switch what {
		case 0:
			return &rec{P: 1, Q: 2}
		case 1:
			return &rec{P: 1, Q: 2, L: []int{}, LS: []string{}, LB: []bool{}, LF: []float64{}, LU: []uint8{}, LR: []c09In{}, LP: []*c09In{}, M: map[string]int{}, A: 0, R: &c09In{}}
		}
		return &rec{P: 1, Q: 2, L: []int{x, 2}, LS: []string{"s", "t"}, LB: []bool{true, false}, LF: []float64{1.5, 2.5}, LU: []uint8{3, 4}, LR: []c09In{in, in}, LP: []*c09In{&in, nil}, M: map[string]int{"a": x, "b": 2}, A: "a", R: &in}
	}
	from, to := mk(sym.Choice("from", 3)), mk(sym.Choice("to", 3))
	f := choose("field", "L", "LS", "LB", "LF", "LU", "LR", "LP", "M", "A", "R")
	fv := func(r *rec) reflect.Value { return reflect.ValueOf(r).Elem().FieldByName(f) }
	src := fv(from)
	hold := mk(sym.Choice("hold", 2) * 2)
	var tpl string
	switch sym.Choice("via", 5) {
	case 0:
		tpl = "#set($to." + f + " = $from." + f + ")"
	case 1:
		tpl = "#set($to." + f + " = $v)"
	case 2:
		tpl = "#set($h = $from." + f + ")#set($to." + f + " = $h)"
	case 3:
		tpl = "#set($n = $h)#set($n = $v)#set($to." + f + " = $n)"
	default:
		tpl = "#foreach($i in [0...2])#set($n = $h)#set($n = $from." + f + ")#set($to." + f + " = $n)#end"
	}
	p := velty.New()
	for _, d := range []kv{v("from", from), v("to", to), v("v", src.Type()), v("h", src.Type())} {
		sym.Assert(p.DefineVariable(d.name, d.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl + "."))
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	set(st, v("from", from), v("to", to))
	if src.Kind() != reflect.Interface && (src.Kind() != reflect.Ptr || !src.IsNil()) {
		set(st, v("v", src.Interface()), v("h", fv(hold).Interface()))
	} else if src.Kind() == reflect.Interface {
		set(st, v("v", src.Interface()))
	}
	sym.Assert(ex.Exec(st) == nil && st.Buffer.String() == ".", "execution succeeds: "+tpl)
	got, want := fv(to), fv(from)
	switch f {
	case "A":
		sym.Assert(to.A == from.A, "an interface is assigned")
	case "R":
		sym.Assert(to.R == from.R, "a pointer is assigned")
	default:
		sym.Assert(got.IsNil() == want.IsNil() && got.Len() == want.Len(), "the value is assigned, nil and empty included: "+f+tpl)
		if f != "M" {
			for i := 0; i < got.Len(); i++ {
				sym.Assert(got.Index(i).Interface() == want.Index(i).Interface(), "the elements are assigned: "+f)
			}
		} else if got.Len() > 0 {
			sym.Assert(to.M["a"] == x, "the entries are assigned")
		}
	}
	sym.Assert(to.P == 1 && to.Q == 2 && from.P == 1 && from.Q == 2, "other fields are unchanged")
	sym.Reach("end")
}
