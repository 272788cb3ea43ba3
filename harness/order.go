package main

import (
	"errors"
	"math"
	"strconv"
	"strings"

	"github.com/viant/velty"

	"veltyverif/sym"
)

// C21_order: several calls within an expression fail independently; the error reported is the one of the leftmost failing call.
func C21_order() {
	a, b, stop := sym.Bool("a"), sym.Bool("b"), sym.Choice("panic", 2) == 1
	typ := choose("type", "int", "float", "string", "bool", "call", "bare")
	x, y := "$f"+typ[:1]+"(1, $a)", "$f"+typ[:1]+"(2, $b)"
	expr := ""
	switch typ {
	case "int", "float":
		expr = x + " " + choose("op", "+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=") + " " + y
	case "string":
		expr = x + " " + choose("op", "+", "==", "!=") + " " + y
	case "bool":
		expr = x + " " + choose("op", "==", "!=") + " " + y
	case "call":
		expr = choose("callee", "$two($fi(1, $a), $fi(2, $b))", "$r.Two($fi(1, $a), $fi(2, $b))", "$cat($fs(1, $a), $fs(2, $b))", "$va($fi(1, $a), $fi(2, $b))", "$mix($fs(1, $a), $fi(2, $b))", "$r.Get($fi(1, $a)).Two($fi(2, $b), 1)")
	default:
		expr = "$fs(1, $a)"
	}
	tpl := "#set($z = " + expr + ")"
	if typ == "bare" {
		tpl = choose("tpl", "$fs(1, $a)$fs(2, $b)", "#if($fb(1, $a))$fs(2, $b)#end", "#set($z = $fi(1, $a))#set($z = $fi(2, $b))", "#foreach($e in $xs)#if($e == 7)$fs(1, $a)#{else}$fs(2, $b)#end#end", "#for($j = $fi(1, $a); $j < 4; $j++)$fs(2, $b)#end")
	}
	var opts []velty.Option
	if stop {
		opts = []velty.Option{velty.PanicOnError(true)}
	}
	p := velty.New(opts...)
	n := 0
	e := func(k int, f bool) error {
		n++
		if f {
			return errors.New("boom" + strconv.Itoa(k) + ".")
		}
		return nil
	}
	for name, fn := range map[string]interface{}{
		"fi":  func(k int, f bool) (int, error) { return 3, e(k, f) },
		"ff":  func(k int, f bool) (float64, error) { return 1.5, e(k, f) },
		"fs":  func(k int, f bool) (string, error) { return "s", e(k, f) },
		"fb":  func(k int, f bool) (bool, error) { return true, e(k, f) },
		"two": func(k, l int) int { return k },
		"cat": func(k, l string) string { return k },
		"va":  func(k ...int) int { return len(k) },
		"mix": func(k string, l int) string { return k },
	} {
		sym.Assert(p.RegisterFunction(name, fn) == nil, "function registers")
	}
	vars := []kv{v("a", a), v("b", b), v("r", &ordRec{}), v("xs", []int{7, 8})}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	sym.Assert((err != nil) == (a || b), "an error is reported exactly when a called function fails: "+tpl)
	if err != nil {
		first := "boom2."
		if a {
			first = "boom1."
		}
		sym.Assert(strings.Contains(err.Error(), first), "the first error is reported: "+tpl)
		sym.Assert(len(st.Errors) > 0 && st.Errors[0].Error() == first, "the first error is collected first: "+tpl)
		if stop && a {
			sym.Assert(n == 1, "nothing is called after the failing call: "+tpl)
		}
	}
	sym.Reach("end")
}

type ordRec struct{ B byte }

func (r *ordRec) Two(k, l int) int  { return k }
func (r *ordRec) Get(k int) *ordRec { return r }

// C20_pow: powers of the values that are special.
func C20_pow() {
	xs := []float64{math.Inf(-1), math.Inf(1), math.NaN(), math.Copysign(0, -1), 0, 1, -1, -8, 2, 0.5, 1e308, 5e-324}
	ys := []float64{0.5, -0.5, 1.0 / 3, 1, -1, 2, -2, 3, 0, math.Inf(1), math.Inf(-1), math.NaN(), 1024}
	a, b := xs[sym.Choice("x", len(xs))], ys[sym.Choice("y", len(ys))]
	p := velty.New()
	var seen []float64
	sym.Assert(p.RegisterFunction("see", func(x float64) string { seen = append(seen, x); return "." }) == nil, "registers")
	vars := []kv{v("a", a), v("b", b)}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte("$see($math.Pow($a, $b))"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil && len(seen) == 1 && sym.SameFloat(seen[0], math.Pow(a, b)), "the power is the one of package math")
	sym.Reach("end")
}

// C28_nil: an entry without a value is an entry.
func C28_nil() {
	n := sym.N(2, 3)
	k, q := sym.Str("k", n), sym.Str("q", n)
	ik, iq := sym.Int("ik"), sym.Int("iq")
	var m interface{}
	key, present := "$q", k == q
	switch sym.Choice("map", 8) {
	case 0:
		m = map[string]interface{}{k: nil}
	case 1:
		m = map[interface{}]interface{}{k: nil}
	case 2:
		m = map[string]*int{k: nil}
	case 3:
		m = map[string][]int{k: nil}
	case 4:
		m = map[string]map[string]int{k: nil}
	case 5:
		m = map[string]error{k: nil}
	case 6:
		m, key, present = map[int]interface{}{ik: nil}, "$iq", ik == iq
	default:
		m, key, present = map[interface{}]interface{}{ik: nil, "s": 1}, "$iq", ik == iq
	}
	vars := []kv{v("m", m), v("q", q), v("iq", iq)}
	tpl := choose("form", "$m.HasKey(QQ)", "$maps.Has($m, QQ)", "#if($m.HasKey(QQ))true#{else}false#end", "#if($maps.Has($m, QQ))true#{else}false#end", "#set($h = $maps.Has($m, QQ))$h")
	ex, ns := plan(strings.ReplaceAll(tpl, "QQ", key), nil, vars...)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil && st.Buffer.String() == strconv.FormatBool(present), "the map has the key iff it is one of its keys: "+tpl)
	sym.Reach("end")
}
