package main

import (
	"errors"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/ast/expr"
	"github.com/viant/velty/est/op"
	"veltyverif/sym"
)

// c19Vals holds the symbolic argument values, three of every kind.
type c19Vals struct {
	P  byte
	S  [3]string
	SA string
	SB string
	SC string
	IA int
	IB int
	IC int
	BA bool
	Q  byte
	BB bool
	FA float64
	FB float64
	UA uint8
	UB uint8
	LI []int
	LJ []int
	LB []bool
	MB []bool
	LF []float64
	MF []float64
	LU []uint8
	MU []uint8
	LS []string
	MS []string
	In *c19Vals
}

func c19New(args string) *c19Vals {
	n := 1
	if strings.ToLower(args) != args {
		n = sym.Choice("n", 3)
	}
	w := &c19Vals{P: 7, Q: 9, SA: sym.Str("sa", 1), SB: sym.Str("sb", 1), SC: "c", IA: sym.Int("ia"), IB: sym.Int("ib"), IC: 5, BA: sym.Bool("ba"), BB: sym.Bool("bb"),
		FA: sym.Float64("fa"), FB: sym.Float64("fb"), UA: sym.Uint8("ua"), UB: sym.Uint8("ub")}
	for i := 0; i < n; i++ {
		w.LI, w.LJ = append(w.LI, w.IA+i), append(w.LJ, w.IB-i)
		w.LB, w.MB = append(w.LB, w.BA), append(w.MB, w.BB, w.BA)
		w.LF, w.MF = append(w.LF, w.FA), append(w.MF, w.FB, 1.5)
		w.LU, w.MU = append(w.LU, w.UA+uint8(i)), append(w.MU, w.UB)
		w.LS, w.MS = append(w.LS, w.SA), append(w.MS, w.SB, "m")
	}
	in := *w
	w.In = &in
	return w
}

// c19Log records what a function received.
type c19Log struct {
	w    *c19Vals
	args []interface{}
	n    int
}

func (l *c19Log) in(args ...interface{}) { l.n++; l.args = args }

type c19Sig struct {
	args string // s string, i int, b bool, f float, u uint8, I []int, B []bool, F []float64, U []uint8, S []string
	res  byte
	fn   func(l *c19Log) interface{}
}

var c19Sigs = []c19Sig{
	{"ss", 'b', func(l *c19Log) interface{} { return func(a, b string) bool { l.in(a, b); return l.w.BA } }},
	{"ss", 's', func(l *c19Log) interface{} { return func(a, b string) string { l.in(a, b); return l.w.SB } }},
	{"s", 's', func(l *c19Log) interface{} { return func(a string) string { l.in(a); return l.w.SB } }},
	{"ss", 'i', func(l *c19Log) interface{} { return func(a, b string) int { l.in(a, b); return l.w.IB } }},
	{"s", 'i', func(l *c19Log) interface{} { return func(a string) int { l.in(a); return l.w.IB } }},
	{"s", 'b', func(l *c19Log) interface{} { return func(a string) bool { l.in(a); return l.w.BA } }},
	{"ssi", 'i', func(l *c19Log) interface{} { return func(a, b string, c int) int { l.in(a, b, c); return l.w.IB } }},
	{"sss", 'b', func(l *c19Log) interface{} { return func(a, b, c string) bool { l.in(a, b, c); return l.w.BA } }},
	{"ss", 'S', func(l *c19Log) interface{} { return func(a, b string) []string { l.in(a, b); return l.w.LS } }},
	{"ssi", 'b', func(l *c19Log) interface{} { return func(a, b string, c int) bool { l.in(a, b, c); return l.w.BA } }},
	{"si", 's', func(l *c19Log) interface{} { return func(a string, b int) string { l.in(a, b); return l.w.SB } }},
	{"sii", 's', func(l *c19Log) interface{} { return func(a string, b, c int) string { l.in(a, b, c); return l.w.SB } }},
	{"Ii", 'b', func(l *c19Log) interface{} { return func(a []int, b int) bool { l.in(a, b); return l.w.BA } }},
	{"Bb", 'b', func(l *c19Log) interface{} { return func(a []bool, b bool) bool { l.in(a, b); return l.w.BA } }},
	{"Ff", 'b', func(l *c19Log) interface{} { return func(a []float64, b float64) bool { l.in(a, b); return l.w.BA } }},
	{"Uu", 'b', func(l *c19Log) interface{} { return func(a []uint8, b uint8) bool { l.in(a, b); return l.w.BA } }},
	{"Ss", 'b', func(l *c19Log) interface{} { return func(a []string, b string) bool { l.in(a, b); return l.w.BA } }},
	{"II", 'b', func(l *c19Log) interface{} { return func(a, b []int) bool { l.in(a, b); return l.w.BA } }},
	{"BB", 'b', func(l *c19Log) interface{} { return func(a, b []bool) bool { l.in(a, b); return l.w.BA } }},
	{"FF", 'b', func(l *c19Log) interface{} { return func(a, b []float64) bool { l.in(a, b); return l.w.BA } }},
	{"UU", 'b', func(l *c19Log) interface{} { return func(a, b []uint8) bool { l.in(a, b); return l.w.BA } }},
	{"SS", 'b', func(l *c19Log) interface{} { return func(a, b []string) bool { l.in(a, b); return l.w.BA } }},
	{"Ii", 'i', func(l *c19Log) interface{} { return func(a []int, b int) int { l.in(a, b); return l.w.IB } }},
	{"Bi", 'b', func(l *c19Log) interface{} { return func(a []bool, b int) bool { l.in(a, b); return l.w.BA } }},
	{"Fi", 'f', func(l *c19Log) interface{} { return func(a []float64, b int) float64 { l.in(a, b); return l.w.FB } }},
	{"Ui", 'u', func(l *c19Log) interface{} { return func(a []uint8, b int) uint8 { l.in(a, b); return l.w.UB } }},
	{"Si", 's', func(l *c19Log) interface{} { return func(a []string, b int) string { l.in(a, b); return l.w.SB } }},
	{"I", 'b', func(l *c19Log) interface{} { return func(a []int) bool { l.in(a); return l.w.BA } }},
	{"B", 'b', func(l *c19Log) interface{} { return func(a []bool) bool { l.in(a); return l.w.BA } }},
	{"F", 'b', func(l *c19Log) interface{} { return func(a []float64) bool { l.in(a); return l.w.BA } }},
	{"U", 'b', func(l *c19Log) interface{} { return func(a []uint8) bool { l.in(a); return l.w.BA } }},
	{"S", 'b', func(l *c19Log) interface{} { return func(a []string) bool { l.in(a); return l.w.BA } }},
	{"I", 'i', func(l *c19Log) interface{} { return func(a []int) int { l.in(a); return l.w.IB } }},
	{"B", 'i', func(l *c19Log) interface{} { return func(a []bool) int { l.in(a); return l.w.IB } }},
	{"F", 'i', func(l *c19Log) interface{} { return func(a []float64) int { l.in(a); return l.w.IB } }},
	{"S", 'i', func(l *c19Log) interface{} { return func(a []string) int { l.in(a); return l.w.IB } }},
	{"i", 's', func(l *c19Log) interface{} { return func(a int) string { l.in(a); return l.w.SB } }},
	{"b", 's', func(l *c19Log) interface{} { return func(a bool) string { l.in(a); return l.w.SB } }},
	{"f", 's', func(l *c19Log) interface{} { return func(a float64) string { l.in(a); return l.w.SB } }},
	// not specialised
	{"i", 'i', func(l *c19Log) interface{} { return func(a int) int { l.in(a); return l.w.IB } }},
	{"ii", 'i', func(l *c19Log) interface{} { return func(a, b int) int { l.in(a, b); return l.w.IB } }},
	{"f", 'f', func(l *c19Log) interface{} { return func(a float64) float64 { l.in(a); return l.w.FB } }},
	{"b", 'b', func(l *c19Log) interface{} { return func(a bool) bool { l.in(a); return l.w.BA } }},
	{"u", 'u', func(l *c19Log) interface{} { return func(a uint8) uint8 { l.in(a); return l.w.UB } }},
	{"sibf", 's', func(l *c19Log) interface{} {
		return func(a string, b int, c bool, d float64) string { l.in(a, b, c, d); return l.w.SB }
	}},
	{"isfbi", 'i', func(l *c19Log) interface{} {
		return func(a int, b string, c float64, d bool, e int) int { l.in(a, b, c, d, e); return l.w.IB }
	}},
	{"sssiii", 's', func(l *c19Log) interface{} {
		return func(a, b, c string, d, e, g int) string { l.in(a, b, c, d, e, g); return l.w.SB }
	}},
	{"i", 'i', func(l *c19Log) interface{} { return func(a int) (int, error) { l.in(a); return l.w.IB, nil } }},
	{"ss", 's', func(l *c19Log) interface{} {
		return func(a, b string) (string, error) { l.in(a, b); return l.w.SB, nil }
	}},
	{"si", 's', func(l *c19Log) interface{} { return func(a, b interface{}) string { l.in(a, b); return l.w.SB } }},
	{"fb", 'i', func(l *c19Log) interface{} {
		return func(a, b interface{}) (int, error) { l.in(a, b); return l.w.IB, nil }
	}},
	{"IS", 'I', func(l *c19Log) interface{} { return func(a []int, b []string) []int { l.in(a, b); return l.w.LJ } }},
	{"iii", 'i', func(l *c19Log) interface{} {
		return func(a int, b ...int) int {
			if len(b) != 2 {
				return -1
			}
			l.in(a, b[0], b[1])
			return l.w.IB
		}
	}},
	{"s", 's', func(l *c19Log) interface{} {
		return func(a string, b ...string) string {
			if len(b) != 0 {
				return "?"
			}
			l.in(a)
			return l.w.SB
		}
	}},
	{"sibfs", 's', func(l *c19Log) interface{} {
		return func(a string, b ...interface{}) string {
			l.in(append([]interface{}{a}, b...)...)
			return l.w.SB
		}
	}},
	{"", 's', func(l *c19Log) interface{} { return func() string { l.in(); return l.w.SB } }},
	{"", 'i', func(l *c19Log) interface{} { return func() (int, error) { l.in(); return l.w.IB, nil } }},
	{"", 'b', func(l *c19Log) interface{} {
		return func(b ...bool) bool {
			if len(b) != 0 {
				return !l.w.BA
			}
			l.in()
			return l.w.BA
		}
	}},
	{"", 'I', func(l *c19Log) interface{} { return func() []int { l.in(); return l.w.LJ } }},
}

// c19Arg returns the text of the k-th argument of the given kind taken from a source, and its value.
func c19Arg(kind byte, k int, src int, w *c19Vals) (string, interface{}) {
	var name string
	var val interface{}
	switch kind {
	case 's':
		name, val = []string{"SA", "SB", "SC"}[k], []string{w.SA, w.SB, w.SC}[k]
	case 'i':
		name, val = []string{"IA", "IB", "IC"}[k], []int{w.IA, w.IB, w.IC}[k]
	case 'b':
		name, val = []string{"BA", "BB"}[k], []bool{w.BA, w.BB}[k]
	case 'f':
		name, val = []string{"FA", "FB"}[k], []float64{w.FA, w.FB}[k]
	case 'u':
		name, val = []string{"UA", "UB"}[k], []uint8{w.UA, w.UB}[k]
	case 'I':
		name, val = []string{"LI", "LJ"}[k], [][]int{w.LI, w.LJ}[k]
	case 'B':
		name, val = []string{"LB", "MB"}[k], [][]bool{w.LB, w.MB}[k]
	case 'F':
		name, val = []string{"LF", "MF"}[k], [][]float64{w.LF, w.MF}[k]
	case 'U':
		name, val = []string{"LU", "MU"}[k], [][]uint8{w.LU, w.MU}[k]
	default:
		name, val = []string{"LS", "MS"}[k], [][]string{w.LS, w.MS}[k]
	}
	scalar := kind >= 'a'
	switch src {
	case 0:
		return "$" + name, val
	case 1:
		return "$v." + name, val
	case 2:
		return "$r." + name, val
	case 3:
		return "$r.In." + name, val
	case 4:
		return "$id" + string(rune(kind)) + "($v." + name + ")", val
	case 5:
		return "$rs[0]." + name, val
	case 6:
		return "$loc" + name, val
	case 7:
		if !scalar || kind == 'u' {
			return "${" + name + "}", val
		}
		switch kind {
		case 's':
			return "\"lit" + strconv.Itoa(k) + "\"", "lit" + strconv.Itoa(k)
		case 'i':
			return strconv.Itoa(41 + k), 41 + k
		case 'b':
			return []string{"true", "false"}[k], k == 0
		default:
			return []string{"1.5", "2.25"}[k], []float64{1.5, 2.25}[k]
		}
	default: // computed
		switch kind {
		case 's':
			return "$" + name + " + \"z\"", val.(string) + "z"
		case 'i':
			return "$" + name + " + $v.IB", val.(int) + w.IB
		case 'b':
			return "$" + name + " && $v.BB", sym.And(val.(bool), w.BB)
		case 'f':
			return "$" + name + " + 1.5", val.(float64) + 1.5
		}
		return "$" + name, val
	}
}

func c19Same(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case uint8:
		y, ok := b.(uint8)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && sym.SameFloat(x, y)
	case []int:
		y, ok := b.([]int)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case []bool:
		y, ok := b.([]bool)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case []uint8:
		y, ok := b.([]uint8)
		return ok && string(x) == string(y)
	case []float64:
		y, ok := b.([]float64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sym.SameFloat(x[i], y[i]) {
				return false
			}
		}
		return true
	case []string:
		y, ok := b.([]string)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return false
}

func c19Res(res byte, w *c19Vals) []interface{} {
	switch res {
	case 's':
		return []interface{}{w.SB}
	case 'i':
		return []interface{}{w.IB}
	case 'b':
		return []interface{}{w.BA}
	case 'f':
		return []interface{}{w.FB}
	case 'u':
		return []interface{}{w.UB}
	case 'I':
		return []interface{}{w.LJ}
	default:
		return []interface{}{w.LS}
	}
}

func c19Planner(w *c19Vals) (*velty.Planner, []kv, string) {
	p := velty.New()
	reg := func(name string, fn interface{}) {
		sym.Assert(p.RegisterFunction(name, fn) == nil, "function registers")
	}
	reg("ids", func(x string) string { return x })
	reg("idi", func(x int) int { return x })
	reg("idb", func(x bool) bool { return x })
	reg("idf", func(x float64) float64 { return x })
	reg("idu", func(x uint8) uint8 { return x })
	reg("idI", func(x []int) []int { return x })
	reg("idB", func(x []bool) []bool { return x })
	reg("idF", func(x []float64) []float64 { return x })
	reg("idU", func(x []uint8) []uint8 { return x })
	reg("idS", func(x []string) []string { return x })
	vars := []kv{v("r", w), v("v", *w), v("rs", []*c19Vals{w}), v("SA", w.SA), v("SB", w.SB), v("SC", w.SC), v("IA", w.IA), v("IB", w.IB), v("IC", w.IC), v("BA", w.BA), v("BB", w.BB), v("FA", w.FA), v("FB", w.FB), v("UA", w.UA), v("UB", w.UB),
		v("LI", w.LI), v("LJ", w.LJ), v("LB", w.LB), v("MB", w.MB), v("LF", w.LF), v("MF", w.MF), v("LU", w.LU), v("MU", w.MU), v("LS", w.LS), v("MS", w.MS)}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	return p, vars, ""
}

// C19_signatures: every specialised and several generic signatures, with every argument source.
func C19_signatures() {
	si := sym.Choice("sig", len(c19Sigs))
	sig := c19Sigs[si]
	w := c19New(sig.args)
	src := sym.Choice("src", 9)
	l := &c19Log{w: w}
	p, vars, _ := c19Planner(w)
	sym.Assert(p.RegisterFunction("fn", sig.fn(l)) == nil, "function registers")
	var seen []interface{}
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "function registers")
	var texts []string
	var wants []interface{}
	pre := ""
	cnt := map[byte]int{}
	for k := 0; k < len(sig.args); k++ {
		kd := sig.args[k]
		if kd < 'a' && src != 6 && src != 7 {
			sym.Reach("slice argument")
		}
		t, val := c19Arg(kd, cnt[kd], src, w)
		if src == 6 {
			pre += "#set($" + t[1:] + " = $v." + t[4:] + ")"
		}
		cnt[kd]++
		texts, wants = append(texts, t), append(wants, val)
	}
	call := "fn("
	for k, t := range texts {
		if k > 0 {
			call += ", "
		}
		call += t
	}
	call += ")"
	form := sym.Choice("form", 3)
	tpl := pre + "<$see($" + call + ")>"
	if form == 1 {
		sym.Assume(src < 7 && src != 4 && len(texts) > 0)
		call = texts[0][1:] + ".fn("
		for k := 1; k < len(texts); k++ {
			if k > 1 {
				call += ","
			}
			call += texts[k]
		}
		tpl = pre + "<$see($" + call + "))>"
	} else if form == 2 {
		tpl = pre + "#set($out = $" + call + ")<$see($out)>"
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
	sym.Assert(st.Buffer.String() == "<.>", "rendered")
	sym.Assert(l.n == 1, "the function is called once: "+tpl)
	sym.Assert(len(l.args) == len(wants), "all arguments are passed: "+tpl)
	for k := range wants {
		sym.Assert(c19Same(wants[k], l.args[k]), "argument "+strconv.Itoa(k)+" of "+tpl)
	}
	sym.Assert(len(seen) == 1, "the result is delivered")
	ok := c19Same(c19Res(sig.res, w)[0], seen[0])
	sym.Assert(ok, "the result of "+tpl)
	sym.Reach("end")
}

type C19Base struct {
	BP byte
	N  int
}

func (b C19Base) BaseV(x int) int  { return b.N + x }
func (b *C19Base) BaseP(x int) int { return b.N - x }

type c19Obj struct {
	P byte
	I int
	S string
	C19Base
	Next *c19Obj
}

func (o c19Obj) ValI() int                     { return o.I }
func (o c19Obj) ValS(a string) string          { return o.S + a }
func (o *c19Obj) PtrI() int                    { return o.I }
func (o *c19Obj) PtrS(a string) string         { return a + o.S }
func (o *c19Obj) Two(a int, b string) string   { return strconv.Itoa(a) + b + o.S }
func (o *c19Obj) Self() *c19Obj                { return o }
func (o *c19Obj) Nxt() *c19Obj                 { return o.Next }
func (o c19Obj) Var(a int, b ...int) int       { return a*100 + len(b)*10 + o.I }
func (o *c19Obj) Err(a string) (string, error) { return o.S + a, nil }
func (o *c19Obj) Many(a, b, c, d, e int) int   { return a + 2*b + 3*c + 4*d + 5*e + o.I }
func (o *c19Obj) Has(a, b string) bool         { return a == b }
func (o *c19Obj) List() []string               { return []string{o.S, "l"} }

type c19Iface interface {
	PtrI() int
	PtrS(a string) string
	Two(a int, b string) string
}

// C19_methods: methods of values, pointers, elements, embedded structs and interfaces; chained and nested calls.
func C19_methods() {
	i, n, x := sym.Int("i"), sym.Int("n"), sym.Int("x")
	s, y := sym.Str("s", 1), sym.Str("y", 1)
	o := &c19Obj{P: 3, I: i, S: s, C19Base: C19Base{BP: 1, N: n}}
	o.Next = &c19Obj{I: x, S: "nx"}
	hold := struct {
		P byte
		V c19Obj
		R *c19Obj
	}{1, *o, o}
	type tc struct{ ref, want string }
	it := strconv.Itoa
	ptr, val := "r", "r"
	ci := sym.Choice("case", 26)
	if ci < 13 {
		ptr = choose("recv", "r", "hold.R", "rs[0]", "m[\"k\"]", "e", "ph.R", "r.Self()", "loc")
	} else if ci < 19 {
		val = choose("vrecv", "r", "v", "hold.V", "hold.R", "vs[1]", "vm[\"k\"]", "ev", "ph.V")
	}
	cases := []tc{
		{ptr + ".PtrI()", it(i)},
		{ptr + ".PtrS($y)", y + s},
		{ptr + ".Two($x, $y)", it(x) + y + s},
		{ptr + ".Two($x, \"q\")", it(x) + "q" + s},
		{ptr + ".Nxt().PtrI()", it(x)},
		{ptr + ".Self().Self().PtrS(\"a\")", "a" + s},
		{ptr + ".Err($y)", s + y},
		{ptr + ".Many($x, 2, $i, 4, 5)", it(x + 4 + 3*i + 16 + 25 + i)},
		{ptr + ".Has($y, $v.S)", strconv.FormatBool(y == s)},
		{ptr + ".List()[0]", s},
		{ptr + ".PtrS($r.PtrS($y))", y + s + s},
		{ptr + ".Two($r.PtrI(), $v.ValS($y))", it(i) + s + y + s},
		{ptr + ".BaseP($x)", it(n - x)},
		{val + ".ValI()", it(i)},
		{val + ".ValS($y)", s + y},
		{val + ".ValS(\"a,b(\")", s + "a,b("},
		{val + ".Var($x)", it(x*100 + i)},
		{val + ".Var($x, 1, 2)", it(x*100 + 20 + i)},
		{val + ".BaseV($x)", it(n + x)},
		{"if.PtrI()", it(i)},
		{"if.PtrS($y)", y + s},
		{"if.Two($x, $y)", it(x) + y + s},
		{"cat($cat($y, $v.S), $cat(\"a\", $y))", y + s + "a" + y},
		{"y.cat($v.S).cat($y)", y + s + y},
		{"v.S.cat($y).up()", "<" + s + y + ">"},
		{"add($add($x, $i), $add(1, $n))", it(x + i + 1 + n)},
	}
	c := cases[ci]
	p := velty.New()
	reg := func(name string, fn interface{}) {
		sym.Assert(p.RegisterFunction(name, fn) == nil, "function registers")
	}
	reg("cat", func(a, b string) string { return a + b })
	reg("up", func(a string) string { return "<" + a + ">" })
	reg("add", func(a, b int) int { return a + b })
	var ifc c19Iface = o
	sym.Assert(p.DefineVariable("if", reflect.TypeOf(&ifc).Elem()) == nil, "variable can be defined")
	vars := []kv{v("r", o), v("v", *o), v("hold", hold), v("ph", &hold), v("rs", []*c19Obj{o}), v("vs", []c19Obj{{}, *o}), v("m", map[string]*c19Obj{"k": o}), v("vm", map[string]c19Obj{"k": *o}), v("i", i), v("n", n), v("x", x), v("y", y), v("s", s)}
	for _, q := range vars {
		sym.Assert(p.DefineVariable(q.name, q.val) == nil, "variable can be defined")
	}
	tpl := "#set($loc = $r)#foreach($e in $rs)#foreach($ev in $vs)#set($ev = $v)#end<${" + c.ref + "}>#end"
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(st.SetValue("if", ifc) == nil, "set")
	sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
	sym.Assert(st.Buffer.String() == "<"+c.want+">", "the result of "+c.ref)
	sym.Assert(o.I == i && o.S == s && o.N == n, "the receiver is unchanged")
	sym.Reach("end")
}

type c19Ns struct{ K int }

func (n c19Ns) Join(a, b string) string                { return a + b }
func (n c19Ns) Scale(a int) int                        { return a * n.K }
func (n c19Ns) Any(a interface{}) (interface{}, error) { return a, nil }
func (n *c19Ns) Ptr(a, b int) (int, error)             { return a - b, nil }

type c19Kind struct{ calls *int }

func (k c19Kind) Kind() []reflect.Kind { return []reflect.Kind{reflect.Slice, reflect.Int} }
func (k c19Kind) Handler() interface{} {
	return func(x interface{}, s string) string {
		*k.calls++
		switch a := x.(type) {
		case int:
			return strconv.Itoa(a) + s
		case []string:
			return a[0] + s
		}
		return "?"
	}
}

// C19_registered: every way to register a function.
func C19_registered() {
	x, y := sym.Int("x"), sym.Int("y")
	s, t := sym.Str("s", 1), sym.Str("t", 1)
	p := velty.New()
	calls := 0
	it := strconv.Itoa
	var ref, want string
	switch sym.Choice("way", 12) {
	case 0:
		sym.Assert(p.RegisterFuncNs("ns", c19Ns{3}) == nil, "registers")
		ref, want = "ns.Join($s, $t)", s+t
	case 1:
		sym.Assert(p.RegisterFuncNs("ns", c19Ns{3}) == nil, "registers")
		ref, want = "ns.Scale($x)", it(x*3)
	case 2:
		sym.Assert(p.RegisterFuncNs("ns", c19Ns{3}) == nil, "registers")
		ref, want = "ns.Any($x)", it(x)
	case 3:
		sym.Assert(p.RegisterFuncNs("ns", &c19Ns{3}) == nil, "registers")
		ref, want = "ns.Ptr($x, $y)", it(x-y)
	case 4:
		sym.Assert(p.RegisterFuncNs("ns", &c19Ns{4}) == nil, "registers")
		ref, want = "ns.Scale($ns.Ptr($x, $y))", it((x-y)*4)
	case 5:
		sym.Assert(p.RegisterFunctionKind("tag", c19Kind{&calls}) == nil, "registers")
		ref, want = "x.tag($s)", it(x)+s
	case 6:
		sym.Assert(p.RegisterFunctionKind("tag", c19Kind{&calls}) == nil, "registers")
		ref, want = "ss.tag($t)", s+t
	case 7:
		tf := &op.TypeFunc{Name: "plus", Handler: func(a, b int) int { return a + b }}
		sym.Assert(p.RegisterTypeFunc(reflect.TypeOf(0), tf) == nil, "registers")
		ref, want = "x.plus($y)", it(x+y)
	case 8:
		tf := &op.TypeFunc{Name: "cut", Handler: func(a string, b int) string { return a + it(b) }}
		sym.Assert(p.RegisterTypeFunc(reflect.TypeOf(""), tf) == nil, "registers")
		tf2 := &op.TypeFunc{Name: "cut", Handler: func(a, b int) int { return a * b }}
		sym.Assert(p.RegisterTypeFunc(reflect.TypeOf(0), tf2) == nil, "registers")
		ref, want = "s.cut($x)}${y.cut($x)", s+it(x)+it(y*x)
	case 9:
		sym.Assert(p.RegisterStandaloneFunction("alone", &op.Function{Handler: func(a int, b string) string { return b + it(a) }}) == nil, "registers")
		ref, want = "alone($x, $s)", s+it(x)
	case 10:
		sym.Assert(p.RegisterFunction("fn", func(a int) int { return a + 1 }) == nil, "registers")
		sym.Assert(p.RegisterFunction("fn2", func(a int) int { return a + 2 }) == nil, "registers")
		ref, want = "fn($fn2($fn($x)))", it(x+4)
	default:
		// a function shared by two planners
		fns := op.NewFunctions()
		sym.Assert(fns.RegisterFunction("fn", func(a int) int { return a + 1 }) == nil, "registers")
		p = velty.New(fns)
		p2 := velty.New(fns)
		sym.Assert(p2.DefineVariable("x", "") == nil, "defined")
		sym.Assert(p2.RegisterFunction("other", func(a string) string { return a }) == nil, "registers")
		_, _, err := p2.Compile([]byte("$other($x)"))
		sym.Assert(err == nil, "compiles")
		ref, want = "fn($x)", it(x+1)
	}
	vars := []kv{v("x", x), v("y", y), v("s", s), v("t", t), v("ss", []string{s, t})}
	for _, q := range vars {
		sym.Assert(p.DefineVariable(q.name, q.val) == nil, "variable can be defined")
	}
	tpl := "<${" + ref + "}>"
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	for round := 0; round < 2; round++ {
		st := ns()
		set(st, vars...)
		sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
		sym.Assert(st.Buffer.String() == "<"+want+">", "the result of "+ref)
	}
	sym.Reach("end")
}

type c19Declared struct {
	typ reflect.Type
	get func(k int) interface{}
}

func (d c19Declared) Make(k int) (interface{}, error) { return d.get(k), nil }
func (d c19Declared) MethodResultType(name string, call *expr.Call) (reflect.Type, error) {
	if name != "Make" {
		return nil, errors.New("no " + name)
	}
	return d.typ, nil
}
func (d c19Declared) Kind() []reflect.Kind { return []reflect.Kind{reflect.Int} }
func (d c19Declared) Handler() interface{} {
	return func(k int) (interface{}, error) { return d.get(k), nil }
}
func (d c19Declared) ResultType(receiver reflect.Type, call *expr.Call) (reflect.Type, error) {
	return d.typ, nil
}

// C19_declared: a function that returns an interface and declares the type of what it returns.
func C19_declared() {
	kind := sym.Choice("kind", sliceKinds)
	xs, same := anySlice(kind, 2)
	d := c19Declared{reflect.TypeOf(xs).Elem(), func(k int) interface{} { return reflect.ValueOf(xs).Index(k).Interface() }}
	if sym.Choice("whole", 2) == 1 { // the slice itself, or an array of it
		one := same
		d = c19Declared{reflect.TypeOf(xs), func(k int) interface{} { return xs }}
		same = func(i int, x interface{}) bool {
			y := reflect.ValueOf(x)
			return y.Len() == 2 && one(i, y.Index(i).Interface())
		}
	}
	p := velty.New()
	var seen []interface{}
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "function registers")
	var ref string
	switch sym.Choice("way", 4) {
	case 0:
		sym.Assert(p.RegisterFuncNs("ns", d) == nil, "registers")
		ref = "$ns.Make($k)"
	case 1:
		sym.Assert(p.RegisterStandaloneFunction("make", &op.Function{Handler: d.Make, ResultTyper: func(call *expr.Call) (reflect.Type, error) { return d.typ, nil }}) == nil, "registers")
		ref = "$make($k)"
	case 2:
		sym.Assert(p.RegisterFunctionKind("make", d) == nil, "registers")
		ref = "$k.make()"
	default:
		sym.Assert(p.RegisterTypeFunc(reflect.TypeOf(0), &op.TypeFunc{Name: "make", Handler: d.Make, ResultType: d.typ}) == nil, "registers")
		ref = "$k.make()"
	}
	k := sym.Choice("k", 2)
	vars := []kv{v("a", byte(1)), v("k", k), v("b", byte(2))}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	tpl := []string{"<$see(" + ref + ")>", "#set($c = " + ref + ")<$see($c)>", "#set($c = " + ref + ")#set($d = $c)#if($k < 9)<$see($d)>#end"}[sym.Choice("use", 3)]
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
	sym.Assert(st.Buffer.String() == "<.>" && len(seen) == 1, "called once")
	sym.Assert(same(k, seen[0]), "the declared result of "+ref+" kind "+strconv.Itoa(kind))
	sym.Reach("end")
}
