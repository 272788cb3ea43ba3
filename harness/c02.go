package main

import (
	"strconv"

	"veltyverif/sym"
)

type c02Leaf struct {
	Pad byte
	I   int
	B   bool
	F   float64
	P2  uint16
	S   string
	B2  bool
	I2  int
	S2  string
	F2  float64
}

type c02Mid struct {
	Z  bool
	L  c02Leaf
	PL *c02Leaf
}

type c02Top struct {
	N  string
	M  c02Mid
	PM *c02Mid
	c02Emb
	Q int
}

type c02Emb struct {
	EI int
	ES string
}

func c02Val(kind int, l *c02Leaf, tag string) string {
	switch kind {
	case 0:
		l.I = sym.Int(tag)
		return strconv.Itoa(l.I)
	case 1:
		l.B = sym.Bool(tag)
		return strconv.FormatBool(l.B)
	case 2:
		l.F = sym.Float64(tag)
		return strconv.FormatFloat(l.F, 'f', -1, 64)
	case 3:
		l.S = sym.Str(tag, sym.N(3, 6))
		return l.S
	case 4:
		l.B2 = sym.Bool(tag)
		return strconv.FormatBool(l.B2)
	case 5:
		l.I2 = sym.Int(tag)
		return strconv.Itoa(l.I2)
	case 6:
		l.S2 = sym.Str(tag, sym.N(3, 6))
		return l.S2
	default:
		l.F2 = sym.Float64(tag)
		return strconv.FormatFloat(l.F2, 'f', -1, 64)
	}
}

var c02Fields = []string{"I", "B", "F", "S", "B2", "I2", "S2", "F2"}

func c02Spell(path string) string {
	switch sym.Choice("spell", 3) {
	case 0:
		return "$" + path
	case 1:
		return "${" + path + "}"
	default:
		return "$!{" + path + "}"
	}
}

// C02_var: top level variables of each scalar kind, next to other variables.
func C02_var() {
	kind := sym.Choice("kind", 4)
	l := &c02Leaf{}
	want := c02Val(kind, l, "x")
	var val interface{}
	switch kind {
	case 0:
		val = l.I
	case 1:
		val = l.B
	case 2:
		val = l.F
	default:
		val = l.S
	}
	vars := []kv{v("x", val)}
	switch sym.Choice("neighbours", 3) {
	case 1:
		vars = []kv{v("a", true), v("x", val), v("b", "bb")}
	case 2:
		vars = []kv{v("x2", byte(7)), v("a", 1.5), v("x", val), v("y", 3)}
	}
	out := render("<"+c02Spell("x")+">", vars...)
	sym.Assert(out == "<"+want+">", "variable renders its exact value")
	sym.Reach("end")
}

var c02Paths = []string{"t.M.L.", "t.M.PL.", "t.PM.L.", "t.PM.PL.", "l.", "t.M.PL."}

// C02_field: fields at every depth, by value and through pointers.
func C02_field() {
	kind := sym.Choice("kind", len(c02Fields))
	where := sym.Choice("path", 5)
	l := &c02Leaf{Pad: 1, P2: 3}
	want := c02Val(kind, l, "x")
	t := c02Top{N: "n", PM: &c02Mid{PL: &c02Leaf{}}, Q: 5}
	t.M.PL = &c02Leaf{}
	switch where {
	case 0:
		t.M.L = *l
	case 1:
		t.M.PL = l
	case 2:
		t.PM.L = *l
	case 3:
		t.PM.PL = l
	}
	var tv, lv interface{} = t, *l
	if sym.Choice("byptr", 2) == 1 {
		tv, lv = &t, l
	}
	out := render("a"+c02Spell(c02Paths[where]+c02Fields[kind])+" b", v("l", lv), v("pre", "x"), v("t", tv))
	sym.Assert(out == "a"+want+" b", "field renders its exact value")
	sym.Reach("end")
}

// C02_many: several references in one template, with text between them.
func C02_many() {
	l := &c02Leaf{I: sym.Int("i"), B: sym.Bool("b"), F: sym.Float64("f"), S: sym.Str("s", sym.N(2, 4)), I2: sym.Int("i2"), S2: sym.Str("s2", 1)}
	t := c02Top{N: sym.Str("n", sym.N(1, 2)), PM: &c02Mid{L: *l}, Q: sym.Int("q")}
	t.EI, t.ES = sym.Int("ei"), sym.Str("es", 1)
	x := sym.Int("x")
	out := render("$x,$l.I/${l.S}$l.B-$t.PM.L.F;${t.N}$t.Q|$l.I2$l.S2:$t.EI,$t.ES\n$x", v("x", x), v("l", l), v("t", t))
	want := strconv.Itoa(x) + "," + strconv.Itoa(l.I) + "/" + l.S + strconv.FormatBool(l.B) + "-" + strconv.FormatFloat(l.F, 'f', -1, 64) + ";" +
		t.N + strconv.Itoa(t.Q) + "|" + strconv.Itoa(l.I2) + l.S2 + ":" + strconv.Itoa(t.EI) + "," + t.ES + "\n" + strconv.Itoa(x)
	sym.Assert(out == want, "references render in place")
	sym.Reach("end")
}

// C02_places: the same reference inside every kind of body.
func C02_places() {
	kind := sym.Choice("kind", 4)
	l := &c02Leaf{}
	want := c02Val(kind, l, "x")
	ref := []string{"$l.", "${l.", "$pl.", "${pl."}[sym.Choice("ref", 4)] + c02Fields[kind]
	if ref[1] == '{' {
		ref += "}"
	}
	var tpl string
	n := 1
	switch sym.Choice("place", 6) {
	case 0:
		tpl = "#if($t)" + ref + "#end"
	case 1:
		tpl = "#if(!$t)no#{else}" + ref + "#end"
	case 2:
		tpl, n = "#foreach($k in [0...2])"+ref+"#end", 2
	case 3:
		tpl, n = "#for($k = 0; $k < 2; $k++)"+ref+"#end", 2
	case 4:
		tpl = "#if(!$t)no#elseif($t)#if($t)" + ref + "#end#end"
	default:
		tpl, n = "#foreach($k in [0...2])#if($t)"+ref+"#end#end", 2
	}
	out := render(tpl, v("l", *l), v("pl", l), v("t", true))
	w := ""
	for i := 0; i < n; i++ {
		w += want
	}
	sym.Assert(out == w, "reference renders its value in "+tpl)
	sym.Reach("end")
}

// C02_dot: a reference followed by a dot that does not start a field name.
func C02_dot() {
	l := c02Leaf{I: sym.Int("i"), S: sym.Str("s", 2)}
	x := sym.Bool("x")
	ref := choose("ref", "$x", "$l.I", "${l.S}", "$l.S", "$l.I2", "$pl.S", "$!l.S")
	n := sym.N(2, 3)
	tail := sym.Str("t", n)
	for i := 0; i < len(tail); i++ {
		sym.Assume(tail[i] != '#' && tail[i] != '$')
	}
	if len(tail) > 0 {
		c := tail[0]
		sym.Assume(!(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && c != '_')
	}
	tpl := "<" + ref + "." + tail
	if sym.Choice("more", 2) == 1 {
		tpl += "$x."
		tail += strconv.FormatBool(x) + "."
		sym.Assume(len(tail) == 0 || tail[0] != '$')
	}
	var want string
	switch ref {
	case "$x":
		want = strconv.FormatBool(x)
	case "$l.I":
		want = strconv.Itoa(l.I)
	case "$l.I2":
		want = "0"
	default:
		want = l.S
	}
	out := render(tpl, v("l", l), v("pl", &l), v("x", x))
	sym.Assert(out == "<"+want+"."+tail, "a dot that ends a sentence is text: "+ref)
	sym.Reach("end")
}
