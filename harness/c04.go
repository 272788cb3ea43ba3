package main

import (
	"strconv"
	"veltyverif/sym"
)

type c04In struct {
	Pad byte
	I   int
	J   int
}

type c04Rec struct {
	S    string
	A, B int
	In   *c04In
	V    c04In
}

var c04Lits = []string{"7", "0", "13", "9007199254740993", "4611686018427387904"}
var c04LitV = []int{7, 0, 13, 9007199254740993, 4611686018427387904}

// intOperand picks one int operand: its spelling, its value, and the record fields it needs.
func c04Operand(side string, rec, prec *c04Rec, vars *[]kv) (string, int) {
	switch sym.Choice(side+".src", 8) {
	case 0:
		i := sym.Choice(side+".lit", sym.N(3, 5))
		return c04Lits[i], c04LitV[i]
	case 1:
		x := sym.Int(side)
		*vars = append(*vars, v(side, x))
		return "$" + side, x
	case 2:
		x := sym.Int(side)
		if side == "x" {
			rec.A = x
			return "$rec.A", x
		}
		rec.B = x
		return "${rec.B}", x
	case 3:
		x := sym.Int(side)
		if side == "x" {
			prec.A = x
			return "$prec.A", x
		}
		prec.B = x
		return "$prec.B", x
	case 4:
		x := sym.Int(side)
		if side == "x" {
			rec.In.I = x
			return "$rec.In.I", x
		}
		rec.In.J = x
		return "$rec.In.J", x
	case 5:
		x := sym.Int(side)
		if side == "x" {
			prec.In.I = x
			return "${prec.In.I}", x
		}
		prec.In.J = x
		return "$prec.In.J", x
	case 6:
		x := sym.Int(side)
		if side == "x" {
			rec.V.I = x
			return "$rec.V.I", x
		}
		rec.V.J = x
		return "$rec.V.J", x
	default:
		x := sym.Int(side)
		if side == "x" {
			prec.V.I = x
			return "$prec.V.I", x
		}
		prec.V.J = x
		return "$prec.V.J", x
	}
}

func c04Pair() (xs, ys string, x, y int, vars []kv, rec, prec *c04Rec) {
	rec = &c04Rec{S: "s", In: &c04In{Pad: 9}}
	prec = &c04Rec{S: "p", In: &c04In{Pad: 8}}
	xs, x = c04Operand("x", rec, prec, &vars)
	ys, y = c04Operand("y", rec, prec, &vars)
	vars = append(vars, v("rec", *rec), v("prec", prec))
	return
}

// C04_arith: + - * / on ints from every pair of sources, through #set and in a nested expression.
func C04_arith() {
	op := choose("op", "+", "-", "*", "/")
	xs, ys, x, y, vars, rec, prec := c04Pair()
	var want int
	switch op {
	case "+":
		want = x + y
	case "-":
		want = x - y
	case "*":
		want = x * y
	case "/":
		sym.Assume(y != 0)
		want = x / y
	}
	rx, px := *rec, *prec
	ri, pi := *rec.In, *prec.In
	out := render("#set($r = "+xs+" "+op+" "+ys+")<$r>", vars...)
	sym.Assert(out == "<"+strconv.Itoa(want)+">", "int "+op+" computes the Go result")
	sym.Assert(*rec.In == ri && *prec.In == pi && prec.A == px.A && prec.B == px.B && prec.V == px.V && rec.A == rx.A, "operands are not modified")
	sym.Assert(!sym.Printed(), "nothing is written to standard output")
	sym.Reach("end")
}

// C04_cmp: the six comparisons.
func C04_cmp() {
	op := choose("op", "==", "!=", "<", "<=", ">", ">=")
	xs, ys, x, y, vars, rec, prec := c04Pair()
	var want bool
	switch op {
	case "==":
		want = x == y
	case "!=":
		want = x != y
	case "<":
		want = x < y
	case "<=":
		want = x <= y
	case ">":
		want = x > y
	case ">=":
		want = x >= y
	}
	ri, pi := *rec.In, *prec.In
	out := render("#if("+xs+" "+op+" "+ys+")T#{else}F#end", vars...)
	sym.Assert(sym.Iff(out == "T", want), "int "+op+" is the mathematical comparison")
	sym.Assert(out == "T" || out == "F", "exactly one branch rendered")
	sym.Assert(*rec.In == ri && *prec.In == pi, "operands are not modified")
	sym.Assert(!sym.Printed(), "nothing is written to standard output")
	sym.Reach("end")
}
