package main

import (
	"veltyverif/sym"
)

type c07Rec struct {
	Pad bool
	I   *int
	I8  *int8
	I16 *int16
	I32 *int32
	I64 *int64
	U   *uint
	U8  *uint8
	U16 *uint16
	U32 *uint32
	U64 *uint64
	F32 *float32
	F64 *float64
	B   *bool
	S   *string
}

var c07Names = []string{"I", "I8", "I16", "I32", "I64", "U", "U8", "U16", "U32", "U64", "F32", "F64", "B", "S"}

// c07Fill stores a pointer to an arbitrary value of kind k (nil if isNil) and returns it as an interface.
func c07Fill(side string, k int, isNil bool, r *c07Rec) interface{} {
	switch k {
	case 0:
		x := sym.Int(side)
		if !isNil {
			r.I = &x
		}
		return r.I
	case 1:
		x := sym.Int8(side)
		if !isNil {
			r.I8 = &x
		}
		return r.I8
	case 2:
		x := sym.Int16(side)
		if !isNil {
			r.I16 = &x
		}
		return r.I16
	case 3:
		x := sym.Int32(side)
		if !isNil {
			r.I32 = &x
		}
		return r.I32
	case 4:
		x := sym.Int64(side)
		if !isNil {
			r.I64 = &x
		}
		return r.I64
	case 5:
		x := sym.Uint(side)
		if !isNil {
			r.U = &x
		}
		return r.U
	case 6:
		x := sym.Uint8(side)
		if !isNil {
			r.U8 = &x
		}
		return r.U8
	case 7:
		x := sym.Uint16(side)
		if !isNil {
			r.U16 = &x
		}
		return r.U16
	case 8:
		x := sym.Uint32(side)
		if !isNil {
			r.U32 = &x
		}
		return r.U32
	case 9:
		x := sym.Uint64(side)
		if !isNil {
			r.U64 = &x
		}
		return r.U64
	case 10:
		x := sym.Float32(side)
		if !isNil {
			r.F32 = &x
		}
		return r.F32
	case 11:
		x := sym.Float64(side)
		if !isNil {
			r.F64 = &x
		}
		return r.F64
	case 12:
		x := sym.Bool(side)
		if !isNil {
			r.B = &x
		}
		return r.B
	default:
		x := sym.Str(side, sym.N(2, 4))
		if !isNil {
			r.S = &x
		}
		return r.S
	}
}

// c07Eq, c07Lt compare the pointed-to values of kind k, both non-nil.
func c07Eq(k int, a, b *c07Rec) bool {
	switch k {
	case 0:
		return *a.I == *b.I
	case 1:
		return *a.I8 == *b.I8
	case 2:
		return *a.I16 == *b.I16
	case 3:
		return *a.I32 == *b.I32
	case 4:
		return *a.I64 == *b.I64
	case 5:
		return *a.U == *b.U
	case 6:
		return *a.U8 == *b.U8
	case 7:
		return *a.U16 == *b.U16
	case 8:
		return *a.U32 == *b.U32
	case 9:
		return *a.U64 == *b.U64
	case 10:
		return *a.F32 == *b.F32
	case 11:
		return *a.F64 == *b.F64
	case 12:
		return *a.B == *b.B
	default:
		return *a.S == *b.S
	}
}

func c07Lt(k int, a, b *c07Rec) bool {
	switch k {
	case 0:
		return *a.I < *b.I
	case 1:
		return *a.I8 < *b.I8
	case 2:
		return *a.I16 < *b.I16
	case 3:
		return *a.I32 < *b.I32
	case 4:
		return *a.I64 < *b.I64
	case 5:
		return *a.U < *b.U
	case 6:
		return *a.U8 < *b.U8
	case 7:
		return *a.U16 < *b.U16
	case 8:
		return *a.U32 < *b.U32
	case 9:
		return *a.U64 < *b.U64
	case 10:
		return *a.F32 < *b.F32
	default:
		return *a.F64 < *b.F64
	}
}

func c07Pair() (k int, xs, ys string, vars []kv, a, b *c07Rec, xnil, ynil bool) {
	k = sym.Choice("kind", len(c07Names))
	a, b = &c07Rec{}, &c07Rec{}
	xnil, ynil = sym.Bool("xnil"), sym.Bool("ynil")
	x := c07Fill("x", k, xnil, a)
	y := c07Fill("y", k, ynil, b)
	switch sym.Choice("src", 4) {
	case 0:
		xs, ys = "$x", "${y}"
		vars = []kv{v("x", x), v("y", y)}
	case 1:
		xs, ys = "$a."+c07Names[k], "$b."+c07Names[k]
		vars = []kv{v("a", *a), v("b", b)}
	case 2:
		xs, ys = "$a."+c07Names[k], "$y"
		vars = []kv{v("a", a), v("y", y)}
	default:
		xs, ys = "$x", "${b."+c07Names[k]+"}"
		vars = []kv{v("x", x), v("b", *b)}
	}
	return
}

// C07_equal: == and != with nil on either side.
func C07_equal() {
	k, xs, ys, vars, a, b, xnil, ynil := c07Pair()
	ne := sym.Choice("op", 2) == 1
	op := "=="
	if ne {
		op = "!="
	}
	out := render("#if("+xs+" "+op+" "+ys+")T#{else}F#end", vars...)
	want := false
	if xnil || ynil {
		want = xnil && ynil
	} else {
		want = c07Eq(k, a, b)
	}
	sym.Assert(sym.Iff(out == "T", want != ne), "pointer "+op+" compares pointed-to values, nil only equal to nil ("+c07Names[k]+")")
	sym.Assert(out == "T" || out == "F", "exactly one branch rendered")
	sym.Reach("end")
}

// C07_order: orderings of non-nil operands.
func C07_order() {
	k, xs, ys, vars, a, b, xnil, ynil := c07Pair()
	sym.Assume(k < 12)
	op := choose("op", "<", "<=", ">", ">=")
	out := render("#if("+xs+" "+op+" "+ys+")T#{else}F#end", vars...)
	sym.Assert(out == "T" || out == "F", "exactly one branch rendered")
	if xnil || ynil {
		sym.Reach("nil")
		return
	}
	want := false
	switch op {
	case "<":
		want = c07Lt(k, a, b)
	case ">":
		want = c07Lt(k, b, a)
	case "<=":
		want = c07Lt(k, a, b) || c07Eq(k, a, b)
	case ">=":
		want = c07Lt(k, b, a) || c07Eq(k, a, b)
	}
	sym.Assert(sym.Iff(out == "T", want), "pointer "+op+" orders pointed-to values ("+c07Names[k]+")")
	sym.Reach("end")
}

type c07Val struct {
	I int
	F float64
	S string
	B bool
}

// C07_mixed: a pointer compared with a plain value of the pointed-to type, on either side.
func C07_mixed() {
	k := sym.Choice("kind", 4)
	name := []string{"I", "F64", "S", "B"}[k]
	kk := []int{0, 11, 13, 12}[k]
	xnil := sym.Bool("xnil")
	a, b := &c07Rec{}, &c07Rec{}
	x := c07Fill("x", kk, xnil, a)
	c07Fill("y", kk, false, b)
	val := c07Val{}
	var yv interface{}
	vf := name
	switch k {
	case 0:
		val.I, yv = *b.I, *b.I
	case 1:
		val.F, yv = *b.F64, *b.F64
		vf = "F"
	case 2:
		val.S, yv = *b.S, *b.S
	default:
		val.B, yv = *b.B, *b.B
	}
	xs, ys := "$x", "$y"
	vars := []kv{v("x", x), v("y", yv)}
	if sym.Choice("src", 2) == 1 {
		xs, ys = "$a."+name, "$val."+vf
		vars = []kv{v("a", a), v("val", val)}
	}
	ne := sym.Choice("op", 2) == 1
	op := "=="
	if ne {
		op = "!="
	}
	l, r := xs, ys
	if sym.Choice("side", 2) == 1 {
		l, r = ys, xs
	}
	out := render("#if("+l+" "+op+" "+r+")T#{else}F#end", vars...)
	want := false
	if !xnil {
		want = c07Eq(kk, a, b)
	}
	sym.Assert(sym.Iff(out == "T", want != ne), "pointer "+op+" value compares the pointed-to value ("+name+")")
	sym.Assert(out == "T" || out == "F", "exactly one branch rendered")
	sym.Reach("end")
}
