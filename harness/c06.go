package main

import "veltyverif/sym"

func c06Str(w *world, side int) (string, string) {
	n := []string{"x", "y"}[side]
	src := sym.Choice(n+".src", wSources+1)
	if src == wSources {
		l := choose(n+".lit", "", "ab", "a'$x<")
		return "\"" + l + "\"", l
	}
	x := sym.Str(n, 2)
	return w.put(side, kStr, src, x), x
}

// C06_str: == != + on strings.
func C06_str() {
	op := choose("op", "==", "!=", "+")
	w := newWorld()
	xs, x := c06Str(w, 0)
	ys, y := c06Str(w, 1)
	if op == "+" {
		out := w.run("#set($r = " + xs + " + " + ys + ")<$r>")
		sym.Assert(out == "<"+x+y+">", "+ concatenates in order: "+xs+"+"+ys)
	} else {
		out := w.run("#if(" + xs + " " + op + " " + ys + ")T#{else}F#end")
		sym.Assert(out == "T" || out == "F", "exactly one branch rendered")
		sym.Assert(sym.Iff(out == "T", (x == y) == (op == "==")), "string "+op+" compares contents: "+xs+op+ys)
	}
	sym.Assert(w.same(), "operands are not modified")
	sym.Reach("end")
}

// C06_long: longer contents, also equal prefixes and equal lengths.
func C06_long() {
	op := choose("op", "==", "!=", "+")
	x, y := sym.Str("x", sym.N(6, 12)), sym.Str("y", sym.N(6, 12))
	vars := []kv{v("x", x), v("y", y)}
	if op == "+" {
		out := render("#set($r = $x + $y)<$r>#set($q = $r + $x)$q", vars...)
		sym.Assert(out == "<"+x+y+">"+x+y+x, "+ concatenates in order")
	} else {
		out := render("#if($x "+op+" $y)T#{else}F#end", vars...)
		sym.Assert(sym.Iff(out == "T", (x == y) == (op == "==")), "string "+op+" compares whole contents")
	}
	sym.Reach("end")
}

func c06Bool(w *world, side int) (string, bool) {
	n := []string{"x", "y"}[side]
	src := sym.Choice(n+".src", wSources+1)
	if src == wSources {
		if sym.Choice(n+".lit", 2) == 0 {
			return "true", true
		}
		return "false", false
	}
	x := sym.Bool(n)
	return w.put(side, kBool, src, x), x
}

// C06_bool: && || == != on booleans.
func C06_bool() {
	op := choose("op", "&&", "||", "==", "!=")
	w := newWorld()
	xs, x := c06Bool(w, 0)
	ys, y := c06Bool(w, 1)
	var want bool
	switch op {
	case "&&":
		want = x && y
	case "||":
		want = x || y
	case "==":
		want = x == y
	default:
		want = x != y
	}
	e := xs + " " + op + " " + ys
	out := w.run("#if(" + e + ")T#{else}F#end#set($r = " + e + ")$r")
	exp := "Ffalse"
	if want {
		exp = "Ttrue"
	}
	sym.Assert(out == exp, "boolean "+op+" follows the truth table: "+e)
	sym.Assert(w.same(), "operands are not modified")
	sym.Reach("end")
}

// C06_not: negation.
func C06_not() {
	w := newWorld()
	xs, x := c06Bool(w, 0)
	e := "!" + xs
	out := w.run("#if(" + e + ")T#{else}F#end#set($r = " + e + ")$r")
	exp := "Ttrue"
	if x {
		exp = "Ffalse"
	}
	sym.Assert(out == exp, "negation: "+e)
	sym.Assert(w.same(), "operands are not modified")
	sym.Reach("end")
}

// C06_notmix: negation on either side of a binary operator.
func C06_notmix() {
	op := choose("op", "&&", "||", "==", "!=")
	w := newWorld()
	x, y := sym.Bool("x"), sym.Bool("y")
	xs := w.put(0, kBool, sym.Choice("x.src", 7), x)
	ys := w.put(1, kBool, sym.Choice("y.src", 7), y)
	side := sym.Choice("neg", 3)
	a, b := x, y
	if side != 1 {
		xs, a = "!"+xs, !x
	}
	if side != 0 {
		ys, b = "!"+ys, !y
	}
	var want bool
	switch op {
	case "&&":
		want = a && b
	case "||":
		want = a || b
	case "==":
		want = a == b
	default:
		want = a != b
	}
	e := xs + " " + op + " " + ys
	out := w.run("#if(" + e + ")T#{else}F#end")
	sym.Assert(sym.Iff(out == "T", want), "negated operands: "+e)
	sym.Reach("end")
}
