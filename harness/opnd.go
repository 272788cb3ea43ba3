package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"veltyverif/sym"
)

// operands written in the template, operands that are one and the same, and collections with more room than elements

var opInts = []int{0, 1, 2, 3, 4, 7, 8, 10, 16, 31, 32, 63, 64, 100, 255, 256, 1000, 1024, 65535, 65536, 1<<31 - 1, 1 << 31, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 3, math.MaxInt64, -1, -2, -3, -8, -64, math.MinInt64}

func opInt(op string, a, b int) (string, bool) {
	var r int
	switch op {
	case "+":
		r = a + b
	case "-":
		r = a - b
	case "*":
		r = a * b
	case "/":
		if b == 0 {
			return "", false
		}
		r = a / b
	case "==":
		return b2s(a == b), true
	case "!=":
		return b2s(a != b), true
	case "<":
		return b2s(a < b), true
	case "<=":
		return b2s(a <= b), true
	case ">":
		return b2s(a > b), true
	default:
		return b2s(a >= b), true
	}
	return strconv.Itoa(r), true
}

func opTpl(op, xs, ys string) string {
	if strings.Contains("+-*/", op) {
		return "#set($r = " + xs + " " + op + " " + ys + ")$r"
	}
	return "#if(" + xs + " " + op + " " + ys + ")T#{else}F#end"
}

// C04_literals: every operator with a literal of any size on either side, or on both.
func C04_literals() {
	op := choose("op", "+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=")
	l := opInts[sym.Choice("lit", len(opInts))]
	lit := strconv.Itoa(l)
	src := sym.Choice("src", 4)
	x := 0
	if src != 2 {
		x = sym.Int("x")
	}
	rec := &c04Rec{A: x, In: &c04In{}}
	var other string
	switch src {
	case 0:
		other = "$x"
	case 1:
		other = "$rec.A"
	case 2:
		k := opInts[sym.Choice("other", len(opInts))]
		x = k
		other = strconv.Itoa(k)
	default:
		other = "$xs[1]"
	}
	a, b, xs, ys := x, l, other, lit
	if src != 2 && sym.Choice("left", 2) == 1 {
		a, b, xs, ys = l, x, lit, other
	}
	if op == "/" {
		sym.Assume(b != 0)
	}
	want, _ := opInt(op, a, b)
	tpl := opTpl(op, xs, ys)
	vars := []kv{v("x", x), v("rec", rec), v("xs", []int{5, x})}
	sym.Assert(render(tpl, vars...) == want, "int "+tpl)
	sym.Reach("end")
}

// C04_same: both operands are the same variable or field.
func C04_same() {
	op := choose("op", "+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=")
	x := sym.Int("x")
	if op == "/" {
		sym.Assume(x != 0)
	}
	w := newWorld()
	xs := w.put(0, kInt, sym.Choice("src", wSources), x)
	want, _ := opInt(op, x, x)
	sym.Assert(w.run(opTpl(op, xs, xs)) == want, "an operand with itself: "+xs+op+xs)
	sym.Assert(w.same(), "operands are not modified")
	sym.Reach("end")
}

func opFloat(op string, a, b float64) string {
	var r float64
	switch op {
	case "+":
		r = a + b
	case "-":
		r = a - b
	case "*":
		r = a * b
	case "/":
		r = a / b
	case "==":
		return map[bool]string{true: "T", false: "F"}[a == b]
	case "!=":
		return map[bool]string{true: "T", false: "F"}[a != b]
	case "<":
		return map[bool]string{true: "T", false: "F"}[a < b]
	case "<=":
		return map[bool]string{true: "T", false: "F"}[a <= b]
	case ">":
		return map[bool]string{true: "T", false: "F"}[a > b]
	default:
		return map[bool]string{true: "T", false: "F"}[a >= b]
	}
	return strconv.FormatFloat(r, 'f', -1, 64)
}

// C05_same: both operands are the same variable or field, NaN included.
func C05_same() {
	op := choose("op", "+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=")
	var x float64
	special := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, 1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740993}
	if k := sym.Choice("x", len(special)+1); k == len(special) {
		x = sym.Float64("f")
	} else {
		x = special[k]
	}
	w := newWorld()
	xs := w.put(0, kFloat, sym.Choice("src", wSources), x)
	sym.Assert(w.run(opTpl(op, xs, xs)) == opFloat(op, x, x), "an operand with itself: "+xs+op+xs)
	sym.Assert(w.sameBits(), "operands are not modified")
	sym.Reach("end")
}

var opFloats = []string{"0.0", "1.0", "2.0", "0.5", "4.0", "10.0", "0.1", "3.0", "100.0", "1024.0", "0.25", "-1.0", "-2.0", "9007199254740993.0", "1e3", "1.5e-3"}
var opFloatV = []float64{0, 1, 2, 0.5, 4, 10, 0.1, 3, 100, 1024, 0.25, -1, -2, 9007199254740993, 1e3, 1.5e-3}

// C05_literals: every operator with a literal that suggests a shortcut, and values for which the shortcut is wrong.
func C05_literals() {
	op := choose("op", "+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=")
	i := sym.Choice("lit", len(opFloats)+4)
	var lit string
	var l float64
	if i >= len(opFloats) {
		k := []int{0, 1, 2, 9007199254740993}[i-len(opFloats)]
		lit, l = strconv.Itoa(k), float64(k)
	} else {
		lit, l = opFloats[i], opFloatV[i]
	}
	special := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, 1, 0.1, -3, 1e16, math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740993}
	var x float64
	src := sym.Choice("src", 3)
	if src < 2 {
		x = special[sym.Choice("x", len(special))]
	}
	var other string
	var vars []kv
	switch src {
	case 0:
		other, vars = "$x", []kv{v("x", x)}
	case 1:
		other, vars = "$xs[0]", []kv{v("xs", []float64{x, 3})}
	default:
		j := sym.Choice("other", len(opFloats))
		other, x = opFloats[j], opFloatV[j]
	}
	a, b, xs, ys := x, l, other, lit
	if sym.Choice("left", 2) == 1 {
		a, b, xs, ys = l, x, lit, other
	}
	tpl := opTpl(op, xs, ys)
	sym.Assert(render(tpl, vars...) == opFloat(op, a, b), "float "+tpl)
	sym.Reach("end")
}

// C06_same: both operands are the same variable or field.
func C06_same() {
	w := newWorld()
	var out, want string
	if sym.Choice("kind", 2) == 0 {
		op := choose("op", "==", "!=", "+")
		x := sym.Str("x", sym.N(3, 5))
		xs := w.put(0, kStr, sym.Choice("src", wSources), x)
		if op == "+" {
			out, want = w.run("#set($r = "+xs+" + "+xs+")$r"), x+x
		} else {
			out, want = w.run("#if("+xs+" "+op+" "+xs+")T#{else}F#end"), map[string]string{"==": "T", "!=": "F"}[op]
		}
	} else {
		op := choose("op", "&&", "||", "==", "!=")
		x := sym.Bool("x")
		xs := w.put(0, kBool, sym.Choice("src", wSources), x)
		r := x
		if op == "==" {
			r = true
		} else if op == "!=" {
			r = false
		}
		out, want = w.run("#if("+xs+" "+op+" "+xs+")T#{else}F#end"), map[bool]string{true: "T", false: "F"}[r]
	}
	sym.Assert(out == want, "an operand with itself")
	sym.Assert(w.same(), "operands are not modified")
	sym.Reach("end")
}

// C07_same: a pointer compared with itself, NaN included.
func C07_same() {
	op := choose("op", "==", "!=")
	var val interface{}
	nan := false
	isNil := sym.Choice("nil", 2) == 1
	switch sym.Choice("kind", 6) {
	case 0:
		x := sym.Float64("x")
		nan = x != x
		val = &x
		if isNil {
			val = (*float64)(nil)
		}
	case 1:
		x := float32(math.NaN())
		nan = true
		val = &x
		if isNil {
			val = (*float32)(nil)
		}
	case 2:
		x := sym.Int("x")
		val = &x
		if isNil {
			val = (*int)(nil)
		}
	case 3:
		x := sym.Str("x", 2)
		val = &x
		if isNil {
			val = (*string)(nil)
		}
	case 4:
		x := sym.Bool("x")
		val = &x
		if isNil {
			val = (*bool)(nil)
		}
	default:
		x := math.NaN()
		nan = true
		val = &x
		if isNil {
			val = (*float64)(nil)
		}
	}
	ys := choose("other", "$x", "${x}", "$y")
	equal := isNil || !nan
	out := render("#if($x "+op+" "+ys+")T#{else}F#end", v("x", val), v("y", val))
	sym.Assert(sym.Iff(out == "T", equal == (op == "==")), "a pointer with itself "+op)
	sym.Assert(out == "T" || out == "F", "one branch")
	sym.Reach("end")
}

var opNear = []string{"a", "a\n", "\na", " a", "a ", "a\r\n", "a\t", "A", "${x}", "${x}\n", " ${x}", "${x} ", "$x", "$x\n", "${y}", "$!x", "${X}", "a\x00", "\u00e9", "e\u0301", "a##c", "a##d", "a##c\n", "#[[a]]#", "#[[ a]]#", "#set($x = 1)", "#set($x = 2)",
	"#if($x == 1)a#end", "#if($x == 2)a#end", "#if($x == 1) a#end", "", "\n", " ", "$s", "\"a\"", "'a'", "<a>", "&lt;a&gt;", "a\ufeff"}

// C14_near: texts that are told apart by their bytes only, evaluated one after the other by a plan with a cache.
func C14_near() {
	x := sym.Int("x")
	a, b := opNear[sym.Choice("a", len(opNear))], opNear[sym.Choice("b", len(opNear))]
	opts := []velty.Option{velty.CacheSize([]int{4, 1}[sym.Choice("cache", sym.N(1, 2))])}
	vars := func(d string) []kv { return []kv{v("x", x), v("y", 7), v("X", 8), v("s", "a"), v("d", d)} }
	ex, ns := plan("[#evaluate($d)]", opts, vars("")...)
	for _, t := range []string{a, b, a} {
		e1, n1 := plan("["+t, nil, vars("")...)
		s1 := n1()
		set(s1, vars("")...)
		sym.Assert(e1.Exec(s1) == nil, "executes")
		st := ns()
		set(st, vars(t)...)
		sym.Assert(ex.Exec(st) == nil, "executes")
		sym.Assert(st.Buffer.String() == s1.Buffer.String()+"]", "texts are told apart: "+a+" and "+b)
	}
	sym.Reach("end")
}

// C14_pair: two arbitrary texts, one after the other.
func C14_pair() {
	n := sym.N(2, 3)
	text := func(name string) string {
		t := sym.Str(name, n)
		for i := 0; i < len(t); i++ {
			sym.Assume(t[i] != '#' && t[i] != '$')
		}
		return t
	}
	a, b := text("a"), text("b")
	ex, ns := plan("[#evaluate($d)]", []velty.Option{velty.CacheSize(4)}, v("d", ""))
	for _, t := range []string{a, b, a} {
		st := ns()
		set(st, v("d", t))
		sym.Assert(ex.Exec(st) == nil, "executes")
		sym.Assert(st.Buffer.String() == "["+t+"]", "texts are told apart")
	}
	sym.Reach("end")
}

type opRow struct {
	S string
	I int
}

// C18_sizes: maps of many sizes with elements of every kind.
func C18_sizes() {
	n := []int{1, 2, 4, 8, 9, 16, 17, 33, 100}[sym.Choice("n", 9)]
	j0 := sym.Choice("at", 3)
	j0 = []int{0, n / 2, n - 1}[j0]
	x := sym.Int("x")
	miss := sym.Choice("miss", 2) == 1
	intKey := sym.Choice("keys", 2) == 1
	mb, mi, ms, mf, mp, mr, ml, ma, m8 := map[string]bool{}, map[string]int{}, map[string]string{}, map[string]float64{}, map[string]*opRow{}, map[string]opRow{}, map[string][]int{}, map[string]interface{}{}, map[string]int8{}
	ib, ii, is, ip, ia := map[int]bool{}, map[int]int{}, map[int]string{}, map[int]*opRow{}, map[int]interface{}{}
	for j := 0; j < n; j++ {
		k := "k" + strconv.Itoa(j)
		val := 1000 + j
		if j == j0 {
			val = x
		}
		row := opRow{S: "s" + strconv.Itoa(j), I: val}
		mb[k], mi[k], ms[k], mf[k], mp[k], mr[k], ml[k], ma[k], m8[k] = j == j0, val, row.S, float64(j)+0.5, &row, row, []int{val}, val, int8(j)
		ib[j], ii[j], is[j], ip[j], ia[j] = j == j0, val, row.S, &row, val
	}
	sx, sj := strconv.Itoa(x), strconv.Itoa(j0)
	q, qi := "k"+sj, j0
	if miss {
		q, qi = "k"+strconv.Itoa(n), n
	}
	var tpl, want, none string
	var m interface{}
	if intKey {
		switch sym.Choice("elem", 5) {
		case 0:
			m, tpl, want, none = ib, "$m[$qi]", "true", "false"
		case 1:
			m, tpl, want, none = ii, "${m[$qi]}", sx, "0"
		case 2:
			m, tpl, want, none = is, "$m[$qi]", "s"+sj, ""
		case 3:
			m, tpl, want, none = ip, "$m[$qi].I", sx, "0"
		default:
			m, tpl, want, none = ia, "$m.HasKey($qi)", "true", "false"
		}
	} else {
		switch sym.Choice("elem", 9) {
		case 0:
			m, tpl, want, none = mb, "$m[$q]", "true", "false"
		case 1:
			m, tpl, want, none = mi, "${m[$q]}", sx, "0"
		case 2:
			m, tpl, want, none = ms, "$m[$q]", "s"+sj, ""
		case 3:
			m, tpl, want, none = mf, "$m[$q]", sj+".5", "0"
		case 4:
			m, tpl, want, none = mp, "$m[$q].I", sx, "0"
		case 5:
			m, tpl, want, none = mr, "$m[$q].S", "s"+sj, ""
		case 6:
			m, tpl, want, none = ml, "#foreach($e in $m[$q])$e#end", sx, ""
		case 7:
			m, tpl, want, none = ma, "$m.HasKey($q)", "true", "false"
		default:
			m, tpl, want, none = m8, "$m.HasKey($q)", "true", "false"
		}
	}
	if miss {
		want = none
	}
	sym.Assert(render("<"+tpl+">", v("m", m), v("q", q), v("qi", qi)) == "<"+want+">", "the value stored for the key: "+tpl)
	sym.Reach("end")
}
