package main

import (
	"reflect"
	"strconv"
	"time"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c32Named bool
type c32Level int
type c32Pt struct {
	X int8
	Y int8
}
type c32Big struct {
	P    byte
	A, B int
}

const c32Kinds = 45

// c32Val makes a value of a kind, a function returning it, and whether it counts as true.
func c32Val(kind int) (val, fn interface{}, truth bool) {
	switch kind {
	case 0:
		x := sym.Bool("x")
		return x, func() bool { return x }, x
	case 1:
		x := sym.Int("x")
		return x, func() int { return x }, x != 0
	case 2:
		x := sym.Str("x", 2)
		return x, func() string { return x }, x != ""
	case 3:
		x := sym.Float64("x")
		return x, func() float64 { return x }, x != 0
	case 4:
		var p *bool
		if sym.Choice("nil", 2) == 0 {
			x := sym.Bool("x")
			p, truth = &x, x
		}
		return p, func() *bool { return p }, truth
	case 5:
		var p *int
		if sym.Choice("nil", 2) == 0 {
			x := sym.Int("x")
			p, truth = &x, x != 0
		}
		return p, func() *int { return p }, truth
	case 6:
		x := sym.Int8("x")
		return x, func() int8 { return x }, x != 0
	case 7:
		x := sym.Uint16("x")
		return x, func() uint16 { return x }, x != 0
	case 8:
		x := sym.Float32("x")
		return x, func() float32 { return x }, x != 0
	case 9:
		x := make([]int, sym.Choice("n", 3))
		return x, func() []int { return x }, len(x) > 0
	case 10:
		var p *c32Pt
		if sym.Choice("nil", 2) == 0 {
			p = &c32Pt{X: sym.Int8("x")}
		}
		return p, func() *c32Pt { return p }, p != nil
	case 11:
		var x interface{}
		switch sym.Choice("dyn", 20) {
		case 0:
			b := sym.Bool("x")
			x, truth = b, b
		case 1:
			b := sym.Int("x")
			x, truth = b, b != 0
		case 2:
			b := sym.Str("x", 2)
			x, truth = b, b != ""
		case 3:
			b := sym.Bool("x")
			x, truth = &b, b
		case 4:
			x, truth = []string{"a"}, true
		case 5:
			x, truth = (*c32Pt)(nil), false
		case 6:
			x, truth = &c32Pt{}, true
		case 8:
			b := sym.Float64("x")
			x, truth = b, b != 0
		case 9:
			b := sym.Float32("x")
			x, truth = b, b != 0
		case 10:
			b := sym.Int64("x")
			x, truth = b, b != 0
		case 11:
			b := sym.Uint8("x")
			x, truth = b, b != 0
		case 12:
			b := c32Named(sym.Bool("x"))
			x, truth = b, bool(b)
		case 13:
			b := sym.Str("x", 1)
			x, truth = &b, b != ""
		case 14:
			b := sym.Float64("x")
			x, truth = &b, b != 0
		case 15:
			x, truth = []string{}, false
		case 16:
			x, truth = []int(nil), false
		case 17:
			b := c32Pt{Y: sym.Int8("x")}
			x, truth = b, b.Y != 0
		case 18:
			x, truth = map[string]int{}, true
		case 19:
			b := sym.Int("x")
			p := &b
			x, truth = &p, b != 0
		}
		return &x, func() interface{} { return x }, truth
	case 12:
		x := c32Pt{X: sym.Int8("x"), Y: sym.Int8("y")}
		return x, func() c32Pt { return x }, x.X != 0 || x.Y != 0
	case 13:
		m := map[string]int{"a": 1}
		if sym.Choice("nil", 2) == 0 {
			m = nil
		}
		return m, func() map[string]int { return m }, m != nil
	case 14:
		x := c32Named(sym.Bool("x"))
		return x, func() c32Named { return x }, bool(x)
	case 15:
		var p *string
		if sym.Choice("nil", 2) == 0 {
			x := sym.Str("x", 1)
			p, truth = &x, x != ""
		}
		return p, func() *string { return p }, truth
	case 16:
		x := sym.Uint64("x")
		return x, func() uint64 { return x }, x != 0
	case 17:
		x := sym.Int32("x")
		return x, func() int32 { return x }, x != 0
	case 18:
		x := c32Level(sym.Int("x"))
		return x, func() c32Level { return x }, x != 0
	case 19:
		x := sym.Uint8("x")
		return x, func() uint8 { return x }, x != 0
	case 20:
		x := sym.Int64("x")
		return x, func() int64 { return x }, x != 0
	case 21:
		x := sym.Int16("x")
		return x, func() int16 { return x }, x != 0
	case 22:
		x := sym.Uint32("x")
		return x, func() uint32 { return x }, x != 0
	case 23:
		x := sym.Uint("x")
		return x, func() uint { return x }, x != 0
	case 24:
		x := c32Big{A: sym.Int("x"), B: sym.Int("y")}
		return x, func() c32Big { return x }, x.A != 0 || x.B != 0
	case 25:
		var x []string
		if n := sym.Choice("n", 3); n > 0 {
			x = make([]string, n-1)
		}
		return x, func() []string { return x }, len(x) > 0
	case 26:
		var p *float64
		if sym.Choice("nil", 2) == 0 {
			x := sym.Float64("x")
			p, truth = &x, x != 0
		}
		return p, func() *float64 { return p }, truth
	case 27:
		var p *int8
		if sym.Choice("nil", 2) == 0 {
			x := sym.Int8("x")
			p, truth = &x, x != 0
		}
		return p, func() *int8 { return p }, truth
	case 28:
		var p *int16
		if sym.Choice("nil", 2) == 0 {
			x := sym.Int16("x")
			p, truth = &x, x != 0
		}
		return p, func() *int16 { return p }, truth
	case 29:
		var p *int32
		if sym.Choice("nil", 2) == 0 {
			x := sym.Int32("x")
			p, truth = &x, x != 0
		}
		return p, func() *int32 { return p }, truth
	case 30:
		var p *int64
		if sym.Choice("nil", 2) == 0 {
			x := sym.Int64("x")
			p, truth = &x, x != 0
		}
		return p, func() *int64 { return p }, truth
	case 31:
		var p *uint
		if sym.Choice("nil", 2) == 0 {
			x := sym.Uint("x")
			p, truth = &x, x != 0
		}
		return p, func() *uint { return p }, truth
	case 32:
		var p *uint8
		if sym.Choice("nil", 2) == 0 {
			x := sym.Uint8("x")
			p, truth = &x, x != 0
		}
		return p, func() *uint8 { return p }, truth
	case 33:
		var p *uint16
		if sym.Choice("nil", 2) == 0 {
			x := sym.Uint16("x")
			p, truth = &x, x != 0
		}
		return p, func() *uint16 { return p }, truth
	case 34:
		var p *uint32
		if sym.Choice("nil", 2) == 0 {
			x := sym.Uint32("x")
			p, truth = &x, x != 0
		}
		return p, func() *uint32 { return p }, truth
	case 35:
		var p *uint64
		if sym.Choice("nil", 2) == 0 {
			x := sym.Uint64("x")
			p, truth = &x, x != 0
		}
		return p, func() *uint64 { return p }, truth
	case 36:
		var p *float32
		if sym.Choice("nil", 2) == 0 {
			x := sym.Float32("x")
			p, truth = &x, x != 0
		}
		return p, func() *float32 { return p }, truth
	case 37:
		var pp **bool
		if sym.Choice("nil", 2) == 0 {
			var p *bool
			if sym.Choice("nil2", 2) == 0 {
				x := sym.Bool("x")
				p, truth = &x, x
			}
			pp = &p
		}
		return pp, func() **bool { return pp }, truth
	case 38:
		var p *c32Level
		if sym.Choice("nil", 2) == 0 {
			x := c32Level(sym.Int("x"))
			p, truth = &x, x != 0
		}
		return p, func() *c32Level { return p }, truth
	case 39:
		var p *[]int
		if sym.Choice("nil", 2) == 0 {
			x := make([]int, sym.Choice("n", 2))
			p, truth = &x, true
		}
		return p, func() *[]int { return p }, truth
	case 40:
		x := [2]int{0, sym.Int("x")}
		return x, func() [2]int { return x }, x[1] != 0
	case 41:
		x := make([]c32Pt, sym.Choice("n", 2))
		return x, func() []c32Pt { return x }, len(x) > 0
	case 42:
		x := make([]interface{}, sym.Choice("n", 2))
		return x, func() []interface{} { return x }, len(x) > 0
	case 43:
		x := c32Flag{sym.Bool("x")}
		return x, func() c32Flag { return x }, x.B
	default:
		x := time.Duration(sym.Int64("x"))
		return x, func() time.Duration { return x }, x != 0
	}
}

type c32Flag struct{ B bool }

var c32Srcs = []string{"$x", "${x}", "$r.X", "${v.X}", "$n.N.X", "$n.V.X", "$xs[1]", "$m[\"k\"]", "$get()", "$n.L[0].X", "$n.M[\"k\"]"}

// c32Spots are the places of a condition E; those from c32Bools on need a boolean.
var c32Spots = []string{
	"#if(E)T#{else}F#end",
	"#if($no)#elseif(E)T#{else}F#end",
	"#set($z = E)#if($z)T#{else}F#end",
	"#foreach($o in $one)#if(E)T#{else}F#end#end",
	"#if($yes)#if(E)T#{else}F#end#end",
	"#if($no)x#elseif($no)#elseif(E)T#elseif($yes)F#end",
	"#if( E )T#{else}F#end",
	"#if(!E)F#{else}T#end",
	"#if($no)#elseif(!E)F#{else}T#end",
	"#set($z = !E)#if($z)F#{else}T#end",
	"#if(E && $yes)T#{else}F#end",
	"#if($no || E)T#{else}F#end",
	"#if(E == true)T#{else}F#end",
	"#if(E != true)F#{else}T#end",
	"#set($z = E)#if(!$z)F#{else}T#end",
	"#set($z = E && $yes)#if($z)T#{else}F#end",
	"#if(!(E))F#{else}T#end",
	"#if((E))T#{else}F#end",
}

const c32Bools = 7

func c32Put(s, e string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] == 'E' {
			out += e
			continue
		}
		out += string(s[i])
	}
	return out
}

// C32_sources: the same value read from everywhere, used as a condition everywhere.
func C32_sources() {
	kind := sym.Choice("kind", c32Kinds)
	val, fn, truth := c32Val(kind)
	src := c32Srcs[sym.Choice("src", len(c32Srcs))]
	spots := c32Bools
	if kind == 0 || kind == 14 {
		spots = len(c32Spots)
	}
	spot := sym.Choice("spot", spots)
	if kind == 14 && (spot == 12 || spot == 13) {
		sym.Reach("end") // a named type is not compared with a literal of another type
		return
	}
	rv := reflect.ValueOf(val)
	if kind == 11 {
		rv = rv.Elem()
	}
	t := rv.Type()
	b := reflect.TypeOf(byte(0))
	recT := reflect.StructOf([]reflect.StructField{{Name: "P", Type: b}, {Name: "X", Type: t}, {Name: "Q", Type: b}})
	rec := reflect.New(recT)
	rec.Elem().Field(0).Set(reflect.ValueOf(byte(1)))
	rec.Elem().Field(1).Set(rv)
	rec.Elem().Field(2).Set(reflect.ValueOf(byte(1)))
	outT := reflect.StructOf([]reflect.StructField{{Name: "P", Type: b}, {Name: "N", Type: rec.Type()}, {Name: "V", Type: recT}, {Name: "L", Type: reflect.SliceOf(recT)}, {Name: "M", Type: reflect.MapOf(reflect.TypeOf(""), t)}})
	out := reflect.New(outT).Elem()
	out.Field(1).Set(rec)
	out.Field(2).Set(rec.Elem())
	out.Field(3).Set(reflect.MakeSlice(reflect.SliceOf(recT), 1, 1))
	out.Field(3).Index(0).Set(rec.Elem())
	out.Field(4).Set(reflect.MakeMap(out.Field(4).Type()))
	out.Field(4).SetMapIndex(reflect.ValueOf("k"), rv)
	xs := reflect.MakeSlice(reflect.SliceOf(t), 3, 3)
	xs.Index(1).Set(rv)
	vars := []kv{v("r", rec.Interface()), v("v", rec.Elem().Interface()), v("n", out.Interface()), v("xs", xs.Interface()), v("m", out.Field(4).Interface()),
		v("yes", true), v("no", false), v("one", []int{1})}
	if kind != 11 {
		vars = append(vars, v("x", val))
	} else if src == "$x" || src == "${x}" {
		src = "$r.X"
	}
	p := velty.New()
	sym.Assert(p.RegisterFunction("get", fn) == nil, "function registers")
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	tpl := c32Put(c32Spots[spot], src)
	ex, ns, err := p.Compile([]byte("<" + tpl + ">"))
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "template executes: "+tpl)
	want := "<F>"
	if truth {
		want = "<T>"
	}
	sym.Assert(st.Buffer.String() == want, "the condition is true exactly when the value is: "+tpl+" kind "+strconv.Itoa(kind))
	sym.Reach("end")
}

// C32_absent: an element that is missing from a map and a field behind a nil pointer are not true.
func C32_absent() {
	kind := sym.Choice("kind", c32Kinds)
	val, _, _ := c32Val(kind)
	rv := reflect.ValueOf(val)
	if kind == 11 {
		rv = rv.Elem()
	}
	t := rv.Type()
	b := reflect.TypeOf(byte(0))
	recT := reflect.StructOf([]reflect.StructField{{Name: "P", Type: b}, {Name: "X", Type: t}, {Name: "Q", Type: b}})
	rec := reflect.New(recT)
	rec.Elem().Field(1).Set(rv)
	outT := reflect.StructOf([]reflect.StructField{{Name: "P", Type: b}, {Name: "N", Type: rec.Type()}, {Name: "M", Type: reflect.MapOf(reflect.TypeOf(""), t)}, {Name: "Z", Type: reflect.MapOf(reflect.TypeOf(""), t)}})
	out := reflect.New(outT).Elem()
	out.Field(0).Set(reflect.ValueOf(byte(1)))
	out.Field(2).Set(reflect.MakeMap(out.Field(2).Type()))
	out.Field(2).SetMapIndex(reflect.ValueOf("k"), rv)
	vars := []kv{v("n", out.Interface()), v("r", reflect.Zero(rec.Type()).Interface()), v("m", out.Field(2).Interface()), v("yes", true), v("no", false), v("one", []int{1})}
	src := choose("src", "$n.N.X", "$r.X", "$m[\"z\"]", "$n.M[\"z\"]", "$n.Z[\"z\"]")
	spots := c32Bools
	if kind == 0 {
		spots = len(c32Spots)
	}
	tpl := c32Put(c32Spots[sym.Choice("spot", spots)], src)
	ex, ns := plan("<"+tpl+">", nil, vars...)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "template executes: "+tpl)
	sym.Assert(st.Buffer.String() == "<F>", "the condition is not true: "+tpl+" kind "+strconv.Itoa(kind))
	sym.Reach("end")
}

// C32_computed: a computed value in a condition counts as it does when assigned first.
func C32_computed() {
	a, b := sym.Int("a"), sym.Int("b")
	f, g := sym.Float64("f"), sym.Float64("g")
	s, u := sym.Str("s", 1), sym.Str("u", 1)
	x, y := sym.Bool("x"), sym.Bool("y")
	var e string
	var truth bool
	switch sym.Choice("e", 16) {
	case 0:
		e, truth = "$a + $b", a+b != 0
	case 1:
		e, truth = "$a - $b", a != b
	case 2:
		e, truth = "$a - 256", a != 256
	case 3:
		e, truth = "$a + 1", a != -1
	case 4:
		e, truth = "$f + $g", f+g != 0
	case 5:
		e, truth = "$f - $g", f-g != 0
	case 6:
		e, truth = "$s + $u", s+u != ""
	case 7:
		e, truth = "$x && $y", sym.And(x, y)
	case 8:
		e, truth = "$x || $y", sym.Or(x, y)
	case 9:
		e, truth = "$x == $y", x == y
	case 10:
		e, truth = "$a == $b", a == b
	case 11:
		e, truth = "$a < $b", a < b
	case 12:
		e, truth = "($a + $b) - $b", a != 0
	case 13:
		e, truth = "$s == $u", s == u
	case 14:
		e, truth = "$f != $g", f != g
	default:
		e, truth = "$a * 2", a*2 != 0
	}
	spot := sym.Choice("spot", c32Bools)
	tpl := c32Put(c32Spots[spot], e)
	want := "F"
	if truth {
		want = "T"
	}
	out := render(tpl, v("a", a), v("b", b), v("f", f), v("g", g), v("s", s), v("u", u), v("x", x), v("y", y), v("yes", true), v("no", false), v("one", []int{1}))
	sym.Assert(out == want, "the condition is true exactly when the value is: "+tpl)
	sym.Reach("end")
}

// C32_loop: a loop whose condition is a reference repeats while it is true.
func C32_loop() {
	n := sym.IntIn("n", 0, sym.N(3, 5))
	step := []int{1, 256, 1 << 32}[sym.Choice("step", 3)]
	start := n * step
	form := choose("form", "#for($k = $start; $k; $k = $k - $step)x#end", "#for($k = $start; $k - 0; $k = $k - $step)x#end", "#for($k = $start; $left; $k = $k - $step)x#set($left = $k != $step)#end")
	out := render(form, v("start", start), v("step", step), v("left", n != 0))
	w := ""
	for i := 0; i < sym.ConcreteInt(n); i++ {
		w += "x"
	}
	sym.Assert(out == w, "the loop repeats while its condition is true: "+form)
	sym.Reach("end")
}
