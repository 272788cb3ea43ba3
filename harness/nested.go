package main

import (
	"strconv"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type nestedOwner struct{ Log *[][]interface{} }

func nestedCall(log *[][]interface{}, args ...interface{}) int {
	*log = append(*log, append([]interface{}{}, args...))
	return 100 + len(*log)
}

// M is a variadic method.
func (o *nestedOwner) M(args ...interface{}) int { return nestedCall(o.Log, args...) }

// C19_nested: a call is an argument of a call of the same function or of another one, several levels deep, with any
// number of arguments, after the functions were called before.
func C19_nested() {
	n := 1 + sym.Choice("args", sym.N(7, 9))
	form := sym.Choice("form", 4)
	outer := at("outer", n)
	inner := at("inner", n)
	depth := 1 + sym.Choice("depth", sym.N(2, 3))
	x := sym.Int("x")

	var log [][]interface{}
	type T = interface{}
	fixed := []interface{}{
		func(a T) int { return nestedCall(&log, a) },
		func(a, b T) int { return nestedCall(&log, a, b) },
		func(a, b, c T) int { return nestedCall(&log, a, b, c) },
		func(a, b, c, d T) int { return nestedCall(&log, a, b, c, d) },
		func(a, b, c, d, e T) int { return nestedCall(&log, a, b, c, d, e) },
		func(a, b, c, d, e, f T) int { return nestedCall(&log, a, b, c, d, e, f) },
		func(a, b, c, d, e, f, g T) int { return nestedCall(&log, a, b, c, d, e, f, g) },
		func(a, b, c, d, e, f, g, h T) int { return nestedCall(&log, a, b, c, d, e, f, g, h) },
		func(a, b, c, d, e, f, g, h, i T) int { return nestedCall(&log, a, b, c, d, e, f, g, h, i) },
	}
	p := velty.New()
	sym.Assert(p.RegisterFunction("vary", func(args ...interface{}) int { return nestedCall(&log, args...) }) == nil, "registers")
	sym.Assert(p.RegisterFunction("fixed", fixed[n-1]) == nil, "registers")
	sym.Assert(p.DefineVariable("x", 0) == nil, "defined")
	sym.Assert(p.DefineVariable("o", &nestedOwner{}) == nil, "defined")
	names := [][]string{{"$vary"}, {"$fixed"}, {"$o.M"}, {"$vary", "$fixed", "$o.M"}}[form]

	// level l has its arguments 10*l, 10*l+1 ..., the first one but the nested call is $x in every second level
	count := 0
	var call func(level int) (text string, value func(base int) [][]interface{})
	call = func(level int) (string, func(base int) [][]interface{}) {
		place := outer
		if level%2 == 1 {
			place = inner
		}
		text := names[level%len(names)] + "("
		var calls func(base int) [][]interface{}
		var args []interface{}
		hasX := false
		for j := 0; j < n; j++ {
			if j > 0 {
				text += ", "
			}
			switch {
			case j == place && level < depth:
				nested, c := call(level + 1)
				text += nested
				calls = c
				args = append(args, nil)
			case !hasX && level%2 == 0:
				hasX = true
				text += "$x"
				args = append(args, x)
			default:
				text += strconv.Itoa(10*level + j)
				args = append(args, 10*level+j)
			}
		}
		count++
		return text + ")", func(base int) [][]interface{} {
			var res [][]interface{}
			own := append([]interface{}{}, args...)
			if calls != nil {
				res = calls(base)
				own[place] = 100 + base + len(res)
			}
			return append(res, own)
		}
	}
	text, value := call(0)
	tpl := text + ";" + text
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	for round := 0; round < 2; round++ {
		log = nil
		st := ns()
		set(st, v("x", x), v("o", &nestedOwner{Log: &log}))
		sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
		want := append(value(0), value(count)...)
		sym.Assert(len(log) == len(want), "every call happens once: "+tpl)
		for j := range want {
			sym.Assert(len(log[j]) == len(want[j]), "the number of arguments: "+tpl)
			for k := range want[j] {
				sym.Assert(log[j][k] == want[j][k], "the argument: "+tpl)
			}
		}
		sym.Assert(st.Buffer.String() == strconv.Itoa(100+count)+";"+strconv.Itoa(100+2*count), "the result: "+tpl)
	}
	sym.Reach("end")
}
