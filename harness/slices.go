package main

import (
	"strconv"

	"veltyverif/sym"
)

type slRow struct {
	P byte
	I int
	S string
	L []int
	N *slRow
	Q byte
}

const sliceKinds = 29

type slOne struct{ P *int }

type slErr struct{ n int }

func (e *slErr) Error() string { return "e" }

type slText string

// anySlice makes a slice of n elements of the given element kind with symbolic contents;
// same reports whether x is exactly element i.
func anySlice(kind, n int) (val interface{}, same func(i int, x interface{}) bool) {
	nm := func(i int) string { return "x" + strconv.Itoa(i) }
	switch kind {
	case 0:
		xs := make([]int, n)
		for i := range xs {
			xs[i] = sym.Int(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(int) == xs[i] }
	case 1:
		xs := make([]string, n)
		for i := range xs {
			xs[i] = sym.Str(nm(i), 1)
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(string) == xs[i] }
	case 2:
		xs := make([]float64, n)
		for i := range xs {
			xs[i] = sym.Float64(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return sym.SameFloat(x.(float64), xs[i]) }
	case 3:
		xs := make([]bool, n)
		for i := range xs {
			xs[i] = sym.Bool(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(bool) == xs[i] }
	case 4:
		xs := make([]int8, n)
		for i := range xs {
			xs[i] = sym.Int8(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(int8) == xs[i] }
	case 5:
		xs := make([]uint8, n)
		for i := range xs {
			xs[i] = sym.Uint8(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(uint8) == xs[i] }
	case 6:
		xs := make([]int16, n)
		for i := range xs {
			xs[i] = sym.Int16(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(int16) == xs[i] }
	case 7:
		xs := make([]uint16, n)
		for i := range xs {
			xs[i] = sym.Uint16(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(uint16) == xs[i] }
	case 8:
		xs := make([]int32, n)
		for i := range xs {
			xs[i] = sym.Int32(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(int32) == xs[i] }
	case 9:
		xs := make([]uint32, n)
		for i := range xs {
			xs[i] = sym.Uint32(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(uint32) == xs[i] }
	case 10:
		xs := make([]int64, n)
		for i := range xs {
			xs[i] = sym.Int64(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(int64) == xs[i] }
	case 11:
		xs := make([]uint64, n)
		for i := range xs {
			xs[i] = sym.Uint64(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(uint64) == xs[i] }
	case 12:
		xs := make([]float32, n)
		for i := range xs {
			xs[i] = sym.Float32(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool {
			return sym.SameFloat(float64(x.(float32)), float64(xs[i]))
		}
	case 13:
		xs := make([]slRow, n)
		for i := range xs {
			xs[i] = slRow{P: byte(i), I: sym.Int(nm(i)), S: "s" + strconv.Itoa(i), Q: 9}
		}
		val, same = xs, func(i int, x interface{}) bool {
			r := x.(slRow)
			return r.P == byte(i) && r.I == xs[i].I && r.S == xs[i].S && r.Q == 9
		}
	case 14:
		xs := make([]*slRow, n)
		for i := range xs {
			if i != 1 {
				xs[i] = &slRow{I: sym.Int(nm(i))}
			}
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(*slRow) == xs[i] }
	case 15:
		xs := make([]*int, n)
		for i := range xs {
			if i != 1 {
				v := sym.Int(nm(i))
				xs[i] = &v
			}
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(*int) == xs[i] }
	case 16:
		xs := make([]interface{}, n)
		for i := range xs {
			switch i % 3 {
			case 0:
				xs[i] = sym.Int(nm(i))
			case 1:
				xs[i] = sym.Str(nm(i), 1)
			default:
				xs[i] = nil
			}
		}
		val, same = xs, func(i int, x interface{}) bool { return x == xs[i] }
	case 17:
		xs := make([][]int, n)
		for i := range xs {
			xs[i] = make([]int, i)
			for j := range xs[i] {
				xs[i][j] = sym.Int(nm(i*10 + j))
			}
		}
		val, same = xs, func(i int, x interface{}) bool {
			l := x.([]int)
			if len(l) != len(xs[i]) {
				return false
			}
			for j := range l {
				if l[j] != xs[i][j] {
					return false
				}
			}
			return true
		}
	case 18:
		xs := make([]uint, n)
		for i := range xs {
			xs[i] = sym.Uint(nm(i))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(uint) == xs[i] }
	case 19:
		xs := make([]slOne, n)
		for i := range xs {
			if i != 1 {
				v := sym.Int(nm(i))
				xs[i].P = &v
			}
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(slOne).P == xs[i].P }
	case 20:
		xs := make([][1]*int, n)
		for i := range xs {
			if i != 1 {
				v := sym.Int(nm(i))
				xs[i][0] = &v
			}
		}
		val, same = xs, func(i int, x interface{}) bool { return x.([1]*int)[0] == xs[i][0] }
	case 21:
		xs := make([]func() int, n)
		for i := range xs {
			v := sym.Int(nm(i))
			xs[i] = func() int { return v }
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(func() int)() == xs[i]() }
	case 22:
		xs := make([]chan int, n)
		for i := range xs {
			if i != 1 {
				xs[i] = make(chan int, 1+i)
			}
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(chan int) == xs[i] }
	case 23:
		xs := make([]error, n)
		for i := range xs {
			if i != 1 {
				xs[i] = &slErr{sym.Int(nm(i))}
			}
		}
		val, same = xs, func(i int, x interface{}) bool {
			if xs[i] == nil {
				return x == nil
			}
			e, ok := x.(*slErr)
			return ok && e == xs[i].(*slErr)
		}
	case 24:
		xs := make([][3]byte, n)
		for i := range xs {
			xs[i] = [3]byte{byte(i), sym.Uint8(nm(i)), 7}
		}
		val, same = xs, func(i int, x interface{}) bool { return x.([3]byte) == xs[i] }
	case 25:
		xs := make([]struct{}, n)
		val, same = xs, func(i int, x interface{}) bool { _, ok := x.(struct{}); return ok }
	case 26:
		xs := make([]*string, n)
		for i := range xs {
			if i != 1 {
				v := sym.Str(nm(i), 1)
				xs[i] = &v
			}
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(*string) == xs[i] }
	case 27:
		xs := make([]slText, n)
		for i := range xs {
			xs[i] = slText(sym.Str(nm(i), 1))
		}
		val, same = xs, func(i int, x interface{}) bool { return x.(slText) == xs[i] }
	default:
		xs := make([]map[string]int, n)
		for i := range xs {
			xs[i] = map[string]int{"k": sym.Int(nm(i)), "i": i}
		}
		val, same = xs, func(i int, x interface{}) bool {
			m := x.(map[string]int)
			return len(m) == 2 && m["k"] == xs[i]["k"] && m["i"] == i
		}
	}
	return val, same
}
