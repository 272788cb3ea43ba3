package main

import (
	"strconv"

	"veltyverif/sym"
)

// val8 is a value of the reference evaluator.
type val8 struct {
	isB bool
	i   int
	b   bool
}

type tok8 struct {
	s   string // operator, "(", ")", "!" or the spelling of an operand
	opd bool
	v   val8
}

var prec8 = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5}

type eval8 struct {
	t   []tok8
	pos int
}

func (e *eval8) atom() val8 {
	t := e.t[e.pos]
	e.pos++
	if t.s == "(" && !t.opd {
		r := e.expr(1)
		e.pos++
		return r
	}
	if t.s == "!" && !t.opd {
		r := e.atom()
		return val8{isB: true, b: !r.b}
	}
	return t.v
}

func (e *eval8) expr(min int) val8 {
	l := e.atom()
	for e.pos < len(e.t) && !e.t[e.pos].opd && prec8[e.t[e.pos].s] >= min {
		op := e.t[e.pos].s
		e.pos++
		r := e.expr(prec8[op] + 1)
		l = apply8(op, l, r)
	}
	return l
}

func apply8(op string, l, r val8) val8 {
	switch op {
	case "+":
		return val8{i: l.i + r.i}
	case "-":
		return val8{i: l.i - r.i}
	case "*":
		return val8{i: l.i * r.i}
	case "/":
		sym.Assume(r.i != 0)
		return val8{i: l.i / r.i}
	case "&&":
		return val8{isB: true, b: sym.And(l.b, r.b)}
	case "||":
		return val8{isB: true, b: sym.Or(l.b, r.b)}
	case "==":
		if l.isB {
			return val8{isB: true, b: sym.Iff(l.b, r.b)}
		}
		return val8{isB: true, b: l.i == r.i}
	case "!=":
		if l.isB {
			return val8{isB: true, b: sym.Iff(l.b, !r.b)}
		}
		return val8{isB: true, b: l.i != r.i}
	case "<":
		return val8{isB: true, b: l.i < r.i}
	case "<=":
		return val8{isB: true, b: l.i <= r.i}
	case ">":
		return val8{isB: true, b: l.i > r.i}
	}
	return val8{isB: true, b: l.i >= r.i}
}

func text8(ts []tok8, spaced bool) string {
	s := ""
	for i, t := range ts {
		if spaced && i > 0 && t.s != ")" && ts[i-1].s != "(" && ts[i-1].s != "!" {
			s += " "
		}
		s += t.s
	}
	return s
}

// group8 puts parentheses around one run of operands (none for choice 0); at[i] is the token index of operand i.
func group8(ts []tok8, at []int, name string) []tok8 {
	n := len(at)
	g := sym.Choice(name, n*(n-1)/2)
	if g == 0 {
		return ts
	}
	k := 0
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if i == 0 && j == n-1 {
				continue
			}
			k++
			if k == g {
				var r []tok8
				r = append(r, ts[:at[i]]...)
				r = append(r, tok8{s: "("})
				end := at[j] + 1
				if ts[at[j]].s == "!" {
					end++
				}
				r = append(r, ts[at[i]:end]...)
				r = append(r, tok8{s: ")"})
				return append(r, ts[end:]...)
			}
		}
	}
	return ts
}

func run8(ts []tok8, want val8, spaced bool, vars []kv) {
	e := text8(ts, spaced)
	if want.isB {
		out := render("#if("+e+")T#{else}F#end", vars...)
		sym.Assert(out == "T" || out == "F", "one branch rendered: "+e)
		sym.Assert(sym.Iff(out == "T", want.b), "conventional grouping: "+e)
		return
	}
	out := render("#set($r = "+e+")$r", vars...)
	sym.Assert(out == strconv.Itoa(want.i), "conventional grouping: "+e)
}

// C08_arith: chains of arithmetic operators with one parenthesised run.
func C08_arith() {
	n := 3 + sym.Choice("n", sym.N(2, 3))
	names := []string{"a", "b", "c", "d", "e"}
	var ts []tok8
	var at []int
	var vars []kv
	for i := 0; i < n; i++ {
		if i > 0 {
			ts = append(ts, tok8{s: choose("op", "+", "-", "*", "/")})
		}
		at = append(at, len(ts))
		if i == 1 && sym.Choice("lit", 2) == 1 {
			ts = append(ts, tok8{s: "7", opd: true, v: val8{i: 7}})
			continue
		}
		x := sym.Int(names[i])
		vars = append(vars, v(names[i], x))
		ts = append(ts, tok8{s: "$" + names[i], opd: true, v: val8{i: x}})
	}
	ts = group8(ts, at, "group")
	want := (&eval8{t: ts}).expr(1)
	run8(ts, want, sym.Choice("spaced", 2) == 1, vars)
	sym.Reach("end")
}

// C08_logic: chains of && and || over boolean variables, negations and comparisons.
func C08_logic() {
	n := 3 + sym.Choice("n", sym.N(1, 2))
	names := []string{"a", "b", "c", "d"}
	var ts []tok8
	var at []int
	var vars []kv
	for i := 0; i < n; i++ {
		if i > 0 {
			ts = append(ts, tok8{s: choose("op", "&&", "||", "==", "!=")})
		}
		at = append(at, len(ts))
		x := sym.Bool(names[i])
		vars = append(vars, v(names[i], x))
		t := tok8{s: "$" + names[i], opd: true, v: val8{isB: true, b: x}}
		if sym.Choice("not", 2) == 1 {
			ts = append(ts, tok8{s: "!"})
		}
		ts = append(ts, t)
	}
	ts = group8(ts, at, "group")
	want := (&eval8{t: ts}).expr(1)
	run8(ts, want, true, vars)
	sym.Reach("end")
}

// C08_mixed: arithmetic below comparison below && below ||.
func C08_mixed() {
	x := sym.IntIn("x", -1000, 1000)
	y := sym.IntIn("y", -1000, 1000)
	z := sym.IntIn("z", -1000, 1000)
	b := sym.Bool("b")
	vars := []kv{v("x", x), v("y", y), v("z", z), v("b", b)}
	opd := func(n string) tok8 {
		switch n {
		case "x":
			return tok8{s: "$x", opd: true, v: val8{i: x}}
		case "y":
			return tok8{s: "$y", opd: true, v: val8{i: y}}
		case "z":
			return tok8{s: "${z}", opd: true, v: val8{i: z}}
		}
		return tok8{s: "3", opd: true, v: val8{i: 3}}
	}
	ar := []string{"+", "-", "*", "/"}
	cm := []string{"==", "!=", "<", "<=", ">", ">="}
	var ts []tok8
	cmp := func(i int) {
		// x op 3 cmp y op z, with the arithmetic on the left, the right, both or neither side
		c := cm[sym.Choice("cmp", 6)]
		ts = append(ts, opd("x"))
		side := sym.Choice("side", 4)
		if side&1 == 1 {
			ts = append(ts, tok8{s: ar[sym.Choice("ar", 4)]}, opd("3"))
		}
		ts = append(ts, tok8{s: c}, opd("y"))
		if side&2 == 2 {
			ts = append(ts, tok8{s: ar[sym.Choice("ar2", 3)]}, opd("z"))
		}
	}
	lg := choose("lg", "&&", "||")
	bt := tok8{s: "$b", opd: true, v: val8{isB: true, b: b}}
	switch sym.Choice("shape", 4) {
	case 0:
		cmp(0)
	case 1:
		cmp(0)
		ts = append(ts, tok8{s: lg}, bt)
	case 2:
		ts = append(ts, bt, tok8{s: lg})
		cmp(0)
	default:
		ts = append(ts, tok8{s: "!"}, bt, tok8{s: lg})
		cmp(0)
		ts = append(ts, tok8{s: choose("lg2", "&&", "||")}, bt)
	}
	want := (&eval8{t: ts}).expr(1)
	run8(ts, want, true, vars)
	sym.Reach("end")
}

// C08_group: negated and nested groups.
func C08_group() {
	a, b, c := sym.Bool("a"), sym.Bool("b"), sym.Bool("c")
	x, y := sym.Int("x"), sym.Int("y")
	vars := []kv{v("a", a), v("b", b), v("c", c), v("x", x), v("y", y)}
	var e string
	var want bool
	switch sym.Choice("e", 10) {
	case 0:
		e, want = "!($a && $b)", !sym.And(a, b)
	case 1:
		e, want = "!($a || $b) && $c", sym.And(!sym.Or(a, b), c)
	case 2:
		e, want = "$c || !($a && $b)", sym.Or(c, !sym.And(a, b))
	case 3:
		e, want = "($a || ($b && $c))", sym.Or(a, sym.And(b, c))
	case 4:
		e, want = "(($a || $b) && $c)", sym.And(sym.Or(a, b), c)
	case 5:
		e, want = "!($x == $y)", x != y
	case 6:
		e, want = "($x) < ($y)", x < y
	case 7:
		e, want = "(($x - 1) - ($y - 1)) == $x - $y", true
	case 8:
		e, want = "($a == $b) != ($b && $c)", sym.Iff(sym.Iff(a, b), !sym.And(b, c))
	default:
		e, want = "($a)", a
	}
	out := render("#if("+e+")T#{else}F#end", vars...)
	sym.Assert(out == "T" || out == "F", "one branch rendered: "+e)
	sym.Assert(sym.Iff(out == "T", want), "parentheses override: "+e)
	sym.Reach("end")
}

// C08_where: the same grouping wherever an expression is accepted.
func C08_where() {
	x, y := sym.IntIn("x", -50, 50), sym.IntIn("y", -50, 50)
	s, t := sym.Str("s", 1), sym.Str("t", 1)
	vars := []kv{v("x", x), v("y", y), v("s", s), v("t", t), v("xs", []int{10, 11, 12, 13, 14, 15}), v("rec", wRec{I: 3})}
	var tpl, want string
	switch sym.Choice("w", 7) {
	case 0:
		tpl, want = "#if(!$x == 1)a#elseif($x - $y * 2 - 1 == 0)b#{else}c#end", ""
		tpl = tpl[13:]
		tpl = "#if($x + 1 * 2 == $y)a#elseif($x - $y * 2 - 1 == 0)b#{else}c#end"
		want = "c"
		if x+2 == y {
			want = "a"
		} else if x-y*2-1 == 0 {
			want = "b"
		}
	case 1:
		tpl = "#for($i = 0; $i < 2 + 1 * 2 - 1; $i++).#end"
		want = "..."
	case 2:
		tpl, want = "$xs[1 + 2 * 2 - 3]", "12"
	case 3:
		tpl, want = "#set($r = $s + \"-\" + $t + $s)$r", s+"-"+t+s
	case 4:
		tpl = "#set($b = $x + 1 < $y * 2 && $x < $y)$b"
		want = strconv.FormatBool(sym.And(x+1 < y*2, x < y))
	case 5:
		tpl, want = "#set($rec.I = 10 - 2 - 3)$rec.I", "5"
	default:
		tpl = "#set($f = 1.0 - 0.5 - 0.25)$f"
		want = "0.25"
	}
	out := render(tpl, vars...)
	sym.Assert(out == want, "conventional grouping in "+tpl)
	sym.Reach("end")
}
