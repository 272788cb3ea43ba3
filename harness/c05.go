package main

import (
	"strconv"

	"veltyverif/sym"
)

// the last ones are not used against ints in the quick tier: x == 2.25 is hard to refute for an int x
var c05Lits = []string{"4.0", "0.0", "1000000.0", "2.25", "1.5"}
var c05LitV = []float64{4, 0, 1000000, 2.25, 1.5}
var c05ILits = []string{"3", "0", "9007199254740993"}
var c05ILitV = []float64{3, 0, 9007199254740993}

// c05Side picks one side: a float or an int (converted to float64 by the rule) from any source.
func c05Side(w *world, side int, isInt, mixed bool, first *int) (string, float64) {
	n := []string{"x", "y"}[side]
	var src int
	if side == 1 && !sym.Thorough() {
		// quick: the second operand comes from the same kind of place as the first, a variable, or is a literal
		src = []int{*first, 0, wSources}[sym.Choice(n+".src", 3)]
	} else {
		src = sym.Choice(n+".src", wSources+1)
		*first = src
	}
	if isInt {
		if src == wSources {
			i := sym.Choice(n+".lit", len(c05ILits))
			return c05ILits[i], c05ILitV[i]
		}
		x := sym.Int(n)
		return w.put(side, kInt, src, x), float64(x)
	}
	if src == wSources {
		i := sym.Choice(n+".lit", len(c05Lits))
		return c05Lits[i], c05LitV[i]
	}
	x := sym.Float64(n)
	return w.put(side, kFloat, src, x), x
}

func c05Both() (*world, string, string, float64, float64) {
	w := newWorld()
	first := 0
	mix := sym.Choice("mix", 3)
	xs, x := c05Side(w, 0, mix == 1, mix > 0, &first)
	ys, y := c05Side(w, 1, mix == 2, mix > 0, &first)
	return w, xs, ys, x, y
}

// C05_arith: + - * / with at least one float operand.
func C05_arith() {
	op := choose("op", "+", "-", "*", "/")
	w, xs, ys, x, y := c05Both()
	var want float64
	switch op {
	case "+":
		want = x + y
	case "-":
		want = x - y
	case "*":
		want = x * y
	default:
		want = x / y
	}
	out := w.run("#set($r = " + xs + " " + op + " " + ys + ")<$r>")
	sym.Assert(out == "<"+strconv.FormatFloat(want, 'f', -1, 64)+">", "float "+op+" computes the IEEE result: "+xs+op+ys)
	sym.Assert(w.sameBits(), "operands are not modified")
	sym.Reach("end")
}

// C05_cmp: the six comparisons.
func C05_cmp() {
	op := choose("op", "==", "!=", "<", "<=", ">", ">=")
	w, xs, ys, x, y := c05Both()
	var want bool
	switch op {
	case "==":
		want = x == y
	case "!=":
		want = x != y
	case "<":
		want = x < y
	case "<=":
		want = x <= y
	case ">":
		want = x > y
	default:
		want = x >= y
	}
	out := w.run("#if(" + xs + " " + op + " " + ys + ")T#{else}F#end")
	sym.Assert(out == "T" || out == "F", "exactly one branch rendered")
	sym.Assert(sym.Iff(out == "T", want), "float "+op+" is the IEEE comparison: "+xs+op+ys)
	sym.Assert(w.sameBits(), "operands are not modified")
	sym.Assert(!sym.Printed(), "nothing is written to standard output")
	sym.Reach("end")
}
