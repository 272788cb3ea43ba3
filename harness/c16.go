package main

import (
	"strconv"

	"github.com/viant/velty/est"
	"veltyverif/sym"
)

type c16L3 struct {
	P byte
	I int
	S string
	B bool
	F float64
	L []int
	V c16V
	Q byte
}

type c16V struct {
	P byte
	I int
	S string
}

type c16L2 struct {
	P  byte
	I  int
	S  string
	C  *c16L3
	PI *int
	PS *string
}

type c16L1 struct {
	P byte
	I int
	S string
	B *c16L2
	W struct {
		P byte
		C *c16L3
		S string
	}
	M  map[string]int
	T  *c16L1
	Me *c16Emb
}

type C16Val struct {
	X int
	Y string
}

type C16Ptr struct {
	P byte
	G float64
	K string
}

type c16Emb struct {
	C16Val
	*C16Ptr
	N int
}

func (a *c16L1) Get() string {
	if a == nil {
		return "nil"
	}
	return a.S
}

var c16Refs = []string{"$a.I", "${a.S}", "$a.B.I", "${a.B.S}", "$a.B.C.I", "${a.B.C.S}", "$a.B.C.B", "$a.B.C.F", "$a.B.C.V.I", "${a.B.C.V.S}", "$a.W.C.I", "${a.W.C.S}", "${a.W.S}", "$a.T.I", "${a.T.B.S}", "${a.T.B.C.S}", "$a.T.W.C.I"}

func c16Build() *c16L1 {
	if sym.Choice("a", 2) == 0 {
		return nil
	}
	a := &c16L1{P: 1, I: sym.Int("ai"), S: sym.Str("as", 1)}
	a.W.S = "ws"
	if sym.Choice("b", 2) == 1 {
		a.B = &c16L2{P: 1, I: sym.Int("bi"), S: sym.Str("bs", 1)}
		if sym.Choice("c", 2) == 1 {
			a.B.C = &c16L3{P: 1, I: sym.Int("ci"), S: sym.Str("cs", 1), B: sym.Bool("cb"), F: sym.Float64("cf"), V: c16V{I: 6, S: "v6"}}
		}
	}
	if sym.Choice("w", 2) == 1 {
		a.W.C = &c16L3{I: 8, S: "w8"}
	}
	switch sym.Choice("t", 3) {
	case 1:
		a.T = &c16L1{I: 9}
	case 2:
		a.T = &c16L1{I: 9, B: &c16L2{S: "tbs"}}
	}
	return a
}

func c16Want(ref string, a *c16L1) string {
	z := &c16L1{}
	if a == nil {
		a = z
	}
	b := a.B
	if b == nil {
		b = &c16L2{}
	}
	c := b.C
	if c == nil {
		c = &c16L3{}
	}
	w := a.W.C
	if w == nil {
		w = &c16L3{}
	}
	t := a.T
	if t == nil {
		t = z
	}
	tb := t.B
	if tb == nil {
		tb = &c16L2{}
	}
	switch ref {
	case "$a.I":
		return strconv.Itoa(a.I)
	case "${a.S}":
		return a.S
	case "$a.B.I":
		return strconv.Itoa(b.I)
	case "${a.B.S}":
		return b.S
	case "$a.B.C.I":
		return strconv.Itoa(c.I)
	case "${a.B.C.S}":
		return c.S
	case "$a.B.C.B":
		return strconv.FormatBool(c.B)
	case "$a.B.C.F":
		return strconv.FormatFloat(c.F, 'f', -1, 64)
	case "$a.B.C.V.I":
		return strconv.Itoa(c.V.I)
	case "${a.B.C.V.S}":
		return c.V.S
	case "$a.W.C.I":
		return strconv.Itoa(w.I)
	case "${a.W.C.S}":
		return w.S
	case "${a.W.S}":
		return a.W.S
	case "$a.T.I":
		return strconv.Itoa(t.I)
	case "${a.T.B.S}":
		return tb.S
	case "${a.T.B.C.S}":
		if tb.C != nil {
			return tb.C.S
		}
		return ""
	default:
		if t.W.C != nil {
			return strconv.Itoa(t.W.C.I)
		}
		return "0"
	}
}

// C16_read: every reference through every combination of nil and non-nil pointers.
func C16_read() {
	a := c16Build()
	ref := c16Refs[sym.Choice("ref", len(c16Refs))]
	out := render("<"+ref+"|"+ref+">", v("a", a))
	want := c16Want(ref, a)
	sym.Assert(out == "<"+want+"|"+want+">", "a field behind a nil pointer is the zero value: "+ref)
	sym.Reach("end")
}

// C16_operand: such references as operands, arguments and assigned values.
func C16_operand() {
	a := c16Build()
	x, s := 3, "k"
	var tpl, want string
	bi, ci, cs := 0, 0, ""
	cb := false
	cf := 0.0
	if a != nil && a.B != nil {
		bi = a.B.I
		if a.B.C != nil {
			ci, cs, cb, cf = a.B.C.I, a.B.C.S, a.B.C.B, a.B.C.F
		}
	}
	switch sym.Choice("use", 9) {
	case 0:
		tpl, want = "#set($z = $a.B.C.I + $x)$z", strconv.Itoa(ci+x)
	case 1:
		tpl, want = "#if($a.B.C.S == $s)T#{else}F#end", b2s(cs == s)
	case 2:
		tpl, want = "#if($a.B.C.B)T#{else}F#end", b2s(cb)
	case 3:
		tpl, want = "#set($z = $a.B.C.S)<$z>", "<"+cs+">"
	case 4:
		tpl, want = "#foreach($e in $a.B.C.L)$e#end.", "."
	case 5:
		tpl, want = "#set($z = $a.B.C.F)$z", strconv.FormatFloat(cf, 'f', -1, 64)
	case 6:
		tpl, want = "#if($a.B.I > $a.B.C.I)T#{else}F#end", b2s(bi > ci)
	case 7:
		tpl, want = "$strings.HasPrefix(\"k\", $a.B.C.S)", "true"
		if cs != "" && cs != "k" {
			want = "false"
		}
	case 8:
		tpl, want = "#set($z = $a.B.C.V)$z.I#set($z.I = 4)$a.B.C.V.I$z.I", "0"
		if a != nil && a.B != nil && a.B.C != nil {
			want = "664"
		} else {
			want = "004"
		}
	}
	out := render(tpl, v("a", a), v("x", x), v("s", s))
	sym.Assert(out == want, "a field behind a nil pointer is the zero value: "+tpl)
	sym.Reach("end")
}

// C16_write: an assignment through a nil pointer is seen by no later read, in this state or another.
func C16_write() {
	a := c16Build()
	set1 := choose("set", "#set($a.B.C.I = 77)", "#set($a.B.C.S = \"seven\")", "#set($a.B.I = 77)", "#set($a.I = 77)", "#set($a.W.C.I = 77)", "#set($a.T.I = 77)", "#set($a.B.C.V.I = 77)", "#set($a.B.C.B = true)", "#set($a.B.C.F = 1.5)", "#set($a.B.S = \"seven\")", "#set($a.B.C = $a.W.C)")
	refs := c16Refs
	if sym.N(0, 1) == 0 {
		refs = []string{"$a.I", "${a.B.S}", "$a.B.C.I", "${a.B.C.S}", "$a.W.C.I", "$a.T.I"}
	}
	ref := refs[sym.Choice("ref", len(refs))]
	b := &c16L1{}
	tpl := set1 + "<" + ref + ">"
	vars := []kv{v("a", a), v("o", (*c16L1)(nil)), v("p", b)}
	ex, ns := plan(tpl+"$o.I.$o.B.C.I.${o.B.C.S}.$p.B.C.I.${p.B.C.S}.$p.W.C.I.$p.T.I.$p.B.I", nil, vars...)
	other := ns()
	st := ns()
	set(st, vars...)
	want := c16Set(set1, a, ref)
	sym.Assert(ex.Exec(st) == nil, "execution succeeds")
	sym.Assert(st.Buffer.String() == "<"+want+">0.0..0..0.0.0", "an assignment changes only what exists: "+set1+" "+ref)
	// another state of the same plan, and a state of a new plan, with nil everywhere
	var empty *c16L1
	set(other, v("a", empty), v("o", empty), v("p", b))
	sym.Assert(ex.Exec(other) == nil, "execution succeeds")
	wantOther := c16Set(set1, nil, ref)
	sym.Assert(other.Buffer.String() == "<"+wantOther+">0.0..0..0.0.0", "an assignment through nil is not seen by another state")
	fresh := render("<"+ref+">", v("a", empty))
	sym.Assert(fresh == "<"+c16Want(ref, nil)+">", "an assignment through nil is not seen by another plan")
	sym.Reach("end")
}

// c16Set applies the assignment to what exists and returns what ref reads afterwards.
func c16Set(text string, a *c16L1, ref string) string {
	if a != nil {
		switch text {
		case "#set($a.I = 77)":
			a2 := *a
			a2.I = 77
			return c16Want(ref, &a2)
		case "#set($a.B.I = 77)", "#set($a.B.S = \"seven\")", "#set($a.B.C = $a.W.C)":
			if a.B == nil {
				break
			}
			a2, b2 := *a, *a.B
			a2.B = &b2
			switch text[8:12] {
			case "B.I ":
				b2.I = 77
			case "B.S ":
				b2.S = "seven"
			default:
				b2.C = a.W.C
			}
			return c16Want(ref, &a2)
		case "#set($a.W.C.I = 77)":
			if a.W.C == nil {
				break
			}
			a2, c2 := *a, *a.W.C
			a2.W.C = &c2
			c2.I = 77
			return c16Want(ref, &a2)
		case "#set($a.T.I = 77)":
			if a.T == nil {
				break
			}
			a2, t2 := *a, *a.T
			a2.T = &t2
			t2.I = 77
			return c16Want(ref, &a2)
		default:
			if a.B == nil || a.B.C == nil {
				break
			}
			a2, b2, c2 := *a, *a.B, *a.B.C
			a2.B = &b2
			b2.C = &c2
			switch text {
			case "#set($a.B.C.I = 77)":
				c2.I = 77
			case "#set($a.B.C.S = \"seven\")":
				c2.S = "seven"
			case "#set($a.B.C.V.I = 77)":
				c2.V.I = 77
			case "#set($a.B.C.B = true)":
				c2.B = true
			case "#set($a.B.C.F = 1.5)":
				c2.F = 1.5
			}
			return c16Want(ref, &a2)
		}
	}
	return c16Want(ref, a)
}

type c16Out struct {
	N int
	V c16L1
	P *c16L1
}

// C16_values: pointers behind values, embedded pointers, pointers to scalars and a variable that was never set.
func C16_values() {
	var ex *est.Execution
	var ns func() *est.State
	o := c16Out{N: 4}
	if sym.Choice("v", 2) == 1 {
		o.V.B = &c16L2{I: 5}
	}
	if sym.Choice("p", 2) == 1 {
		o.P = &c16L1{S: "ps"}
	}
	e := &c16Emb{N: 3}
	n := sym.Int("n")
	if sym.Choice("emb", 2) == 1 {
		e.C16Ptr = &C16Ptr{G: 1.5, K: "k"}
	}
	if sym.Choice("e", 2) == 1 {
		e = nil
	}
	set1 := sym.Choice("set", 2) == 1
	vars := []kv{v("o", o), v("e", e), v("un", (*c16L1)(nil)), v("n", n)}
	ex, ns = plan("$o.N.$o.V.B.I.$o.V.B.C.I.${o.P.S}.$o.P.B.I.${un.S}.$un.B.C.I|$e.N.$e.G.${e.K}.|$n", nil, vars...)
	st := ns()
	if set1 {
		set(st, vars...)
	}
	sym.Assert(ex.Exec(st) == nil, "execution succeeds")
	want := "0.0.0..0..0|0.0..|0"
	if set1 {
		bi, ps, en, ef := "0", "", "0", "0."
		if o.V.B != nil {
			bi = "5"
		}
		if o.P != nil {
			ps = "ps"
		}
		if e != nil {
			en = "3"
			if e.C16Ptr != nil {
				ef = "1.5.k"
			}
		}
		want = "4." + bi + ".0." + ps + ".0..0|" + en + "." + ef + ".|" + strconv.Itoa(n)
	}
	sym.Assert(st.Buffer.String() == want, "nil pointers read as zero values")
	sym.Reach("end")
}
