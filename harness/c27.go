package main

import (
	"reflect"
	"strconv"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

type c27Int int
type c27Str string
type c27Bool bool
type c27Flt float64
type c27Byte uint8
type c27Strs []string

type c27Err struct{ s string }

func (e *c27Err) Error() string { return e.s }

type c27Big struct {
	A byte
	S string
	B byte
	F float32
	N c27In
	P *c27In
	C byte
}

type c27In struct {
	X int
	Y bool
}

func c27BigEq(a, b c27Big) bool {
	return a.A == b.A && a.S == b.S && a.B == b.B && sym.SameFloat(float64(a.F), float64(b.F)) && a.N.X == b.N.X && a.N.Y == b.N.Y && a.P == b.P && a.C == b.C
}

const c27Own = 19
const c27Kinds = c27Own + 2*sliceKinds

// c27Val makes a symbolic value of a kind; typ is the type the variable is defined with, zero tells an unset variable.
func c27Val(kind int) (typ reflect.Type, val interface{}, same, zero func(x interface{}) bool) {
	isNil := func(x interface{}) bool {
		if x == nil {
			return true
		}
		return reflect.ValueOf(x).IsNil()
	}
	switch kind {
	case 0:
		a := c27Int(sym.Int("k"))
		val, same, zero = a, func(x interface{}) bool { return x.(c27Int) == a }, func(x interface{}) bool { return x.(c27Int) == 0 }
	case 1:
		a := c27Str(sym.Str("k", 2))
		val, same, zero = a, func(x interface{}) bool { return x.(c27Str) == a }, func(x interface{}) bool { return x.(c27Str) == "" }
	case 2:
		a := c27Bool(sym.Bool("k"))
		val, same, zero = a, func(x interface{}) bool { return x.(c27Bool) == a }, func(x interface{}) bool { return !bool(x.(c27Bool)) }
	case 3:
		a := sym.Float64("k")
		val, same, zero = c27Flt(a), func(x interface{}) bool { return sym.SameFloat(float64(x.(c27Flt)), a) }, func(x interface{}) bool { return x.(c27Flt) == 0 }
	case 4:
		a := c27Byte(sym.Uint8("k"))
		val, same, zero = a, func(x interface{}) bool { return x.(c27Byte) == a }, func(x interface{}) bool { return x.(c27Byte) == 0 }
	case 5:
		a := c27Strs{sym.Str("k", 1), "b"}
		val, same, zero = a, func(x interface{}) bool { y := x.(c27Strs); return len(y) == 2 && y[0] == a[0] && y[1] == "b" }, isNil
	case 6:
		a := sym.Int("k")
		val, same, zero = &a, func(x interface{}) bool { return x.(*int) == &a }, isNil
	case 7:
		a := sym.Str("k", 1)
		val, same, zero = &a, func(x interface{}) bool { return x.(*string) == &a }, isNil
	case 8:
		a := sym.Bool("k")
		val, same, zero = &a, func(x interface{}) bool { return x.(*bool) == &a }, isNil
	case 9:
		a := &c27Big{S: sym.Str("k", 1)}
		val, same, zero = a, func(x interface{}) bool { return x.(*c27Big) == a }, isNil
	case 10:
		a := c27Big{A: sym.Uint8("ka"), S: sym.Str("k", 1), B: 3, F: sym.Float32("kf"), N: c27In{sym.Int("kx"), sym.Bool("ky")}, P: &c27In{}, C: sym.Uint8("kc")}
		val, same, zero = a, func(x interface{}) bool { return c27BigEq(x.(c27Big), a) }, func(x interface{}) bool { return c27BigEq(x.(c27Big), c27Big{}) }
	case 11:
		a := [3]int{sym.Int("k0"), sym.Int("k1"), sym.Int("k2")}
		val, same, zero = a, func(x interface{}) bool { return x.([3]int) == a }, func(x interface{}) bool { return x.([3]int) == [3]int{} }
	case 12:
		a := [2]string{sym.Str("k0", 1), "z"}
		val, same, zero = a, func(x interface{}) bool { y := x.([2]string); return y[0] == a[0] && y[1] == "z" }, func(x interface{}) bool { y := x.([2]string); return y[0] == "" && y[1] == "" }
	case 13:
		val, same, zero = struct{}{}, func(x interface{}) bool { return x == struct{}{} }, func(x interface{}) bool { return x == struct{}{} }
	case 14:
		a := time.Unix(1700000000, 5).UTC()
		val, same, zero = a, func(x interface{}) bool { return x.(time.Time).Equal(a) }, func(x interface{}) bool { return x.(time.Time).IsZero() }
	case 15:
		a := &time.Time{}
		val, same, zero = a, func(x interface{}) bool { return x.(*time.Time) == a }, isNil
	case 16: // interface variable
		typ = reflect.TypeOf((*interface{})(nil)).Elem()
		zero = func(x interface{}) bool { return x == nil }
		switch sym.Choice("dyn", 5) {
		case 0:
			a := sym.Int("k")
			val, same = a, func(x interface{}) bool { return x == a }
		case 1:
			a := sym.Str("k", 1)
			val, same = a, func(x interface{}) bool { return x == a }
		case 2:
			a := c27In{sym.Int("k"), true}
			val, same = a, func(x interface{}) bool { return x == a }
		case 3:
			a := &c27In{}
			val, same = a, func(x interface{}) bool { return x == a }
		default:
			val, same = nil, func(x interface{}) bool { return x == nil }
		}
		return
	case 17: // named interface
		typ = reflect.TypeOf((*error)(nil)).Elem()
		a := &c27Err{"e"}
		val, same, zero = a, func(x interface{}) bool { y, ok := x.(*c27Err); return ok && y == a }, func(x interface{}) bool { return x == nil }
		return
	case 18:
		val, same, zero = uintptr(sym.Uint64("k")), nil, func(x interface{}) bool { return x.(uintptr) == 0 }
		a := val.(uintptr)
		same = func(x interface{}) bool { return x.(uintptr) == a }
	default:
		n := (kind - c27Own) / sliceKinds
		xs, sm := anySlice((kind-c27Own)%sliceKinds, 1+n)
		if n == 0 {
			typ = reflect.TypeOf(xs).Elem()
			val = reflect.ValueOf(xs).Index(0).Interface()
			same = func(x interface{}) bool { return sm(0, x) }
			zero = func(x interface{}) bool { return x == nil || reflect.ValueOf(x).IsZero() }
			return
		}
		val = xs
		same = func(x interface{}) bool {
			y := reflect.ValueOf(x)
			return y.Len() == 2 && sm(0, y.Index(0).Interface()) && sm(1, y.Index(1).Interface())
		}
		zero = isNil
	}
	typ = reflect.TypeOf(val)
	return
}

func c27See(p *velty.Planner) *[]interface{} {
	var seen []interface{}
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "function registers")
	return &seen
}

// C27_kinds: a variable of any kind between two neighbours.
func C27_kinds() {
	kind := sym.Choice("kind", c27Kinds)
	typ, val, same, zero := c27Val(kind)
	at := sym.Choice("at", 3)
	a, b := sym.Uint8("a"), sym.Str("b", 1)
	p := velty.New()
	seen := c27See(p)
	vars := []kv{v("l", a), v("x", typ), v("r", b)}
	if at == 0 {
		vars = []kv{v("x", typ), v("l", a), v("r", b)}
	} else if at == 2 {
		vars = []kv{v("r", b), v("l", a), v("x", typ)}
	}
	for _, k := range vars {
		sym.Assert(p.DefineVariable(k.name, k.val) == nil, "defined")
	}
	ex, ns, err := p.Compile([]byte("$see($l)$see($x)$see($r)"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	check := func(l uint8, x func(interface{}) bool, r string, what string) {
		*seen = nil
		st.Reset()
		sym.Assert(ex.Exec(st) == nil, "executes")
		sym.Assert(st.Buffer.String() == "...", "rendered")
		sym.Assert(len(*seen) == 3, "three values are read")
		sym.Assert((*seen)[0] == interface{}(l), what+": the left neighbour, kind "+strconv.Itoa(kind))
		sym.Assert(x((*seen)[1]), what+": the value, kind "+strconv.Itoa(kind))
		sym.Assert((*seen)[2] == interface{}(r), what+": the right neighbour, kind "+strconv.Itoa(kind))
	}
	check(0, zero, "", "nothing set")
	sym.Assert(st.SetValue("x", val) == nil, "set")
	check(0, same, "", "only the variable set")
	sym.Assert(st.SetValue("r", b) == nil, "set")
	sym.Assert(st.SetValue("l", a) == nil, "set")
	check(a, same, b, "neighbours set")
	sym.Assert(st.SetValue("y", val) != nil, "an undefined variable is an error")
	sym.Assert(st.SetValue("X", val) != nil, "names are case sensitive")
	sym.Assert(st.SetValue("", val) != nil, "an empty name is an error")
	check(a, same, b, "undefined set")
	sym.Assert(st.SetValue("x", val) == nil, "set again")
	check(a, same, b, "set again")
	sym.Reach("end")
}

// C27_nil: a value replaced by nil reads as the zero value.
func C27_nil() {
	kind := sym.Choice("kind", c27Kinds)
	typ, val, same, zero := c27Val(kind)
	switch typ.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func:
	default:
		sym.Assume(false)
	}
	p := velty.New()
	seen := c27See(p)
	sym.Assert(p.DefineVariable("l", 0) == nil, "defined")
	sym.Assert(p.DefineVariable("x", typ) == nil, "defined")
	sym.Assert(p.DefineVariable("r", "") == nil, "defined")
	ex, ns, err := p.Compile([]byte("$see($l)$see($x)$see($r)"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	n, s := sym.Int("n"), sym.Str("s", 1)
	set(st, v("l", n), v("x", val), v("r", s))
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(same((*seen)[1]), "the value")
	if sym.Choice("typed", 2) == 1 && typ.Kind() != reflect.Interface {
		sym.Assert(st.SetValue("x", reflect.Zero(typ).Interface()) == nil, "set to a nil of the type")
	} else {
		sym.Assert(st.SetValue("x", nil) == nil, "set to nil")
	}
	*seen = nil
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(zero((*seen)[1]), "nil reads as the zero value, kind "+strconv.Itoa(kind))
	sym.Assert((*seen)[0] == interface{}(n) && (*seen)[2] == interface{}(s), "neighbours are kept")
	sym.Reach("end")
}

func c27Name(i int) string {
	if i%3 == 1 {
		return "V" + strconv.Itoa(i)
	}
	if i%3 == 2 {
		return "v_" + strconv.Itoa(i)
	}
	return "v" + strconv.Itoa(i)
}

// C27_many: any number of variables, values set in any order, one of them replaced.
func C27_many() {
	n := []int{1, 2, 3, 9, 17, 40, 70}[sym.Choice("count", sym.N(6, 7))]
	vals := make([]interface{}, n)
	p := velty.New()
	seen := c27See(p)
	tpl := ""
	for i := 0; i < n; i++ {
		nm := strconv.Itoa(i)
		switch i % 6 {
		case 0:
			vals[i] = sym.Int("i" + nm)
		case 1:
			vals[i] = sym.Bool("b" + nm)
		case 2:
			vals[i] = sym.StrN("s"+nm, 1)
		case 3:
			vals[i] = sym.Int8("c" + nm)
		case 4:
			vals[i] = sym.Float32("f" + nm)
			sym.Assume(vals[i].(float32) == vals[i].(float32))
		default:
			k := sym.Int("p" + nm)
			vals[i] = &k
		}
		sym.Assert(p.DefineVariable(c27Name(i), vals[i]) == nil, "defined")
		tpl += "$see($" + c27Name(i) + ")"
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles")
	st := ns()
	if sym.Choice("order", 2) == 0 {
		for i := 0; i < n; i++ {
			sym.Assert(st.SetValue(c27Name(i), vals[i]) == nil, "set")
		}
	} else {
		for i := n - 1; i >= 0; i-- {
			sym.Assert(st.SetValue(c27Name(i), vals[i]) == nil, "set")
		}
	}
	k := sym.Choice("again", n)
	switch k % 6 {
	case 0:
		vals[k] = sym.Int("again")
	case 1:
		vals[k] = !vals[k].(bool)
	case 2:
		vals[k] = "again"
	case 3:
		vals[k] = sym.Int8("again")
	case 4:
		vals[k] = float32(2.5)
	default:
		vals[k] = (*int)(nil)
	}
	sym.Assert(st.SetValue(c27Name(k), vals[k]) == nil, "set")
	sym.Assert(st.SetValue(c27Name(n), 1) != nil, "an undefined name is an error")
	other := ns()
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(len(*seen) == n, "all are read")
	for i := range vals {
		sym.Assert((*seen)[i] == vals[i], "variable "+strconv.Itoa(i)+" of "+strconv.Itoa(n))
	}
	*seen = nil
	sym.Assert(ex.Exec(other) == nil, "executes")
	for i := range vals {
		sym.Assert(reflect.ValueOf((*seen)[i]).IsZero(), "another state is not affected")
	}
	sym.Reach("end")
}

type C27Emb struct {
	P byte
	A int
	S string
	L []int
	N *c27In
	V c27In
	Q byte
}

type C27Oth struct {
	B byte
	T string
	M int
}

// C27_embed: embedded values between plain variables.
func C27_embed() {
	form := sym.Choice("form", 4)
	e := C27Emb{P: sym.Uint8("p"), A: sym.Int("a"), S: sym.Str("s", 1), L: []int{sym.Int("l")}, N: &c27In{X: sym.Int("n")}, V: c27In{X: sym.Int("v"), Y: sym.Bool("w")}, Q: sym.Uint8("q")}
	o := C27Oth{B: sym.Uint8("ob"), T: sym.Str("ot", 1), M: sym.Int("om")}
	anon := struct {
		Z byte
		Y string
	}{sym.Uint8("z"), sym.Str("y", 1)}
	c, d := sym.Uint8("c"), sym.Str("d", 1)
	p := velty.New()
	seen := c27See(p)
	byPtr := form&1 == 1
	last := form&2 == 2
	def := func(x interface{}) { sym.Assert(p.EmbedVariable(x) == nil, "embedded") }
	if last {
		sym.Assert(p.DefineVariable("c", c) == nil, "defined")
		def(reflect.TypeOf(o))
	}
	if byPtr {
		def(&e)
	} else {
		def(e)
	}
	if !last {
		def(o)
		sym.Assert(p.DefineVariable("c", c) == nil, "defined")
	}
	def(anon)
	sym.Assert(p.DefineVariable("d", d) == nil, "defined")
	ex, ns, err := p.Compile([]byte("$see($P)$see($A)$see($S)$see($L[0])$see($N.X)$see($V.X)$see($V.Y)$see($Q)$see($B)$see($T)$see($M)$see($Z)$see($Y)$see($c)$see($d)"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	order := sym.Choice("order", 2)
	put := func() {
		if sym.Choice("how", 2) == 0 {
			sym.Assert(st.EmbedValue(e) == nil, "value set")
		} else {
			sym.Assert(st.EmbedValue(&e) == nil, "value set")
		}
	}
	if order == 0 {
		put()
	}
	sym.Assert(st.EmbedValue(o) == nil, "value set")
	sym.Assert(st.EmbedValue(anon) == nil, "value set")
	set(st, v("d", d), v("c", c))
	if order == 1 {
		put()
	}
	sym.Assert(st.EmbedValue(c27In{}) != nil, "a value that was not embedded is an error")
	sym.Assert(st.EmbedValue(struct{ W int }{}) != nil, "a value that was not embedded is an error")
	sym.Assert(st.SetValue("A", 7) != nil, "a promoted field is not a variable")
	run := func(want []interface{}, what string) {
		*seen = nil
		sym.Assert(ex.Exec(st) == nil, "executes")
		sym.Assert(len(*seen) == len(want), "all values are read")
		for i := range want {
			sym.Assert((*seen)[i] == want[i], what+": value "+strconv.Itoa(i)+" form "+strconv.Itoa(form))
		}
	}
	run([]interface{}{e.P, e.A, e.S, e.L[0], e.N.X, e.V.X, e.V.Y, e.Q, o.B, o.T, o.M, anon.Z, anon.Y, c, d}, "set")
	e2 := C27Emb{A: sym.Int("a2"), L: []int{5}, N: &c27In{X: 6}, Q: 8}
	sym.Assert(st.EmbedValue(e2) == nil, "value set again")
	o.T = "again"
	sym.Assert(st.EmbedValue(&o) == nil, "value set again")
	run([]interface{}{e2.P, e2.A, e2.S, 5, 6, 0, false, e2.Q, o.B, o.T, o.M, anon.Z, anon.Y, c, d}, "set again")
	sym.Assert(st.SetValue("c", c+1) == nil, "set")
	run([]interface{}{e2.P, e2.A, e2.S, 5, 6, 0, false, e2.Q, o.B, o.T, o.M, anon.Z, anon.Y, c + 1, d}, "variable set")
	sym.Reach("end")
}

// C27_define: redefinition keeps the variable, types may be given as reflect.Type, additional names read the same variable.
func C27_define() {
	n, s := sym.Int("n"), sym.Str("s", 1)
	p := velty.New()
	seen := c27See(p)
	var def interface{} = n
	if sym.Choice("type", 2) == 1 {
		def = reflect.TypeOf(n)
	}
	if sym.Choice("names", 2) == 1 {
		sym.Assert(p.DefineVariable("n", def, "m", "Other") == nil, "defined")
	} else {
		sym.Assert(p.DefineVariable("n", def) == nil, "defined")
		sym.Assert(p.DefineVariable("m", 0) == nil, "defined")
		sym.Assert(p.DefineVariable("Other", 0) == nil, "defined")
	}
	sym.Assert(p.DefineVariable("s", "") == nil, "defined")
	sym.Assert(p.DefineVariable("n", 5) == nil, "defined again")
	ex, ns, err := p.Compile([]byte("$see($n)$see($s)#set($late = $n)$see($late)#set($n = $n + 1)$see($n)$see($late)"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, v("n", n), v("s", s))
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(len(*seen) == 5, "all values are read")
	sym.Assert((*seen)[0] == interface{}(n) && (*seen)[1] == interface{}(s) && (*seen)[2] == interface{}(n) && (*seen)[3] == interface{}(n+1) && (*seen)[4] == interface{}(n), "the values")
	sym.Assert(st.SetValue("late", 1) == nil, "a variable defined by the template can be set")
	sym.Reach("end")
}

func c27Alias(st *est.State, ex *est.Execution) string {
	st.Reset()
	sym.Assert(ex.Exec(st) == nil, "executes")
	return st.Buffer.String()
}

// C27_alias: additional names of a variable.
func C27_alias() {
	p := velty.New()
	s, t := sym.Str("s", 1), sym.Str("t", 1)
	r := &slRow{S: sym.Str("u", 1)}
	sym.Assert(p.DefineVariable("b", byte(0)) == nil, "defined")
	sym.Assert(p.DefineVariable("s", "", "s1", "s2") == nil, "defined")
	sym.Assert(p.DefineVariable("t", "", "t1") == nil, "defined")
	sym.Assert(p.DefineVariable("r", r, "r1") == nil, "defined")
	ex, ns, err := p.Compile([]byte("$s,$s1,$s2,$t,$t1,$r.S,$r1.S#set($s2 = $t1)#set($t = \"T\")#set($r1.S = \"R\");$s,$s1,$s2,$t,$t1,$r.S"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	u := r.S
	set(st, v("b", byte(1)), v("s", s), v("t", t), v("r", r))
	sym.Assert(c27Alias(st, ex) == s+","+s+","+s+","+t+","+t+","+u+","+u+";"+t+","+t+","+t+",T,T,R", "all names of a variable denote it")
	sym.Reach("end")
}
