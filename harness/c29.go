package main

import (
	"strconv"

	"github.com/viant/velty"
	"github.com/viant/velty/functions"
	"veltyverif/sym"
)

type c29Rec struct {
	P byte
	S []string
	I []int
	F []float64
	B []bool
}

// c29Spare is how many elements of a longer slice follow the n elements.
func c29Spare(n int) int { return 2*n + 1 }

// c29World makes slices of n symbolic elements and a copy of them.
func c29World(n int) (*c29Rec, *c29Rec) {
	a, b := &c29Rec{P: 3}, &c29Rec{P: 3}
	m := n + c29Spare(n)
	a.S, a.I, a.F, a.B = make([]string, m), make([]int, m), make([]float64, m), make([]bool, m)
	for i := n; i < m; i++ {
		a.S[i], a.I[i], a.F[i], a.B[i] = "rest", 1000+i, 0.5, true
	}
	a.S, a.I, a.F, a.B = a.S[:n], a.I[:n], a.F[:n], a.B[:n]
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		a.S[i], a.I[i], a.F[i], a.B[i] = sym.Str("s"+k, 1), sym.Int("i"+k), sym.Float64("f"+k), sym.Bool("b"+k)
	}
	b.S, b.I = append([]string{}, a.S...), append([]int{}, a.I...)
	b.F, b.B = append([]float64{}, a.F...), append([]bool{}, a.B...)
	return a, b
}

func (a *c29Rec) same(b *c29Rec) bool {
	if len(a.S) != len(b.S) || len(a.I) != len(b.I) || len(a.F) != len(b.F) || len(a.B) != len(b.B) {
		return false
	}
	for i := range a.S {
		if a.S[i] != b.S[i] || a.I[i] != b.I[i] || !sym.SameFloat(a.F[i], b.F[i]) || a.B[i] != b.B[i] {
			return false
		}
	}
	n := len(a.S)
	for i := n; i < n+c29Spare(n); i++ {
		if a.S[:i+1][i] != "rest" || a.I[:i+1][i] != 1000+i || a.F[:i+1][i] != 0.5 || !a.B[:i+1][i] {
			return false
		}
	}
	return true
}

// c29Run executes a template with the record known as $r and its slices as variables, and returns what $see received.
func c29Run(tpl string, r *c29Rec, more ...kv) ([]interface{}, string, error) {
	p := velty.New()
	var seen []interface{}
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "function registers")
	vars := append([]kv{v("r", r), v("q", *r), v("S", r.S), v("I", r.I), v("F", r.F), v("B", r.B)}, more...)
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	return seen, st.Buffer.String(), err
}

var c29Forms = []string{"$see(X)", "#set($e = X)$see($e)", "#if($B1)#{else}$see(X)#end", "#foreach($once in $one)$see(X)#end"}

func c29Form(call string) string {
	form := c29Forms[sym.Choice("form", len(c29Forms))]
	out := ""
	for i := 0; i < len(form); i++ {
		if form[i] == 'X' {
			out += call
			continue
		}
		out += string(form[i])
	}
	return out
}

func c29Src(kind string) string {
	return choose("src", "$"+kind, "$r."+kind, "${q."+kind+"}")
}

func c29More() []kv { return []kv{v("B1", false), v("one", []int{1})} }

func c29Ints(x interface{}, want []int) bool {
	g, ok := x.([]int)
	if !ok || len(g) != len(want) {
		return false
	}
	for i := range g {
		if g[i] != want[i] {
			return false
		}
	}
	return true
}

func c29Strs(x interface{}, want []string) bool {
	g, ok := x.([]string)
	if !ok || len(g) != len(want) {
		return false
	}
	for i := range g {
		if g[i] != want[i] {
			return false
		}
	}
	return true
}

func c29Floats(x interface{}, want []float64) bool {
	g, ok := x.([]float64)
	if !ok || len(g) != len(want) {
		return false
	}
	for i := range g {
		if !sym.SameFloat(g[i], want[i]) {
			return false
		}
	}
	return true
}

// C29_reverse: reversal of every length, its inverse, the argument left alone and not shared with the result.
func C29_reverse() {
	n := sym.Choice("n", sym.N(5, 9))
	r, old := c29World(n)
	kind := choose("kind", "S", "I", "F")
	name := map[string]string{"S": "Strings", "I": "Ints", "F": "Floats"}[kind]
	src := c29Src(kind)
	call := "$slices.Reverse" + name + "(" + src + ")"
	twice := sym.Choice("twice", 2) == 1
	tpl := c29Form(call)
	if twice {
		tpl = "#set($x = " + call + ")" + c29Form("$slices.Reverse"+name+"($x)")
	}
	seen, out, err := c29Run(tpl, r, c29More()...)
	sym.Assert(err == nil && out == "." && len(seen) == 1, "the function is called once and succeeds")
	ws, wi, wf := make([]string, n), make([]int, n), make([]float64, n)
	for i := 0; i < n; i++ {
		j := n - 1 - i
		if twice {
			j = i
		}
		ws[i], wi[i], wf[i] = old.S[j], old.I[j], old.F[j]
	}
	switch kind {
	case "S":
		sym.Assert(c29Strs(seen[0], ws), "the elements come in reverse order")
	case "I":
		sym.Assert(c29Ints(seen[0], wi), "the elements come in reverse order")
	default:
		sym.Assert(c29Floats(seen[0], wf), "the elements come in reverse order")
	}
	sym.Assert(r.same(old), "the argument is not modified")
	if n > 0 {
		switch g := seen[0].(type) {
		case []string:
			g[0] = g[0] + "!"
		case []int:
			g[0]++
		case []float64:
			g[0] = 0.25
			sym.Assume(old.F[0] != 0.25 && old.F[n-1] != 0.25)
		}
		sym.Assert(r.same(old), "the result does not share storage with the argument")
	}
	sym.Reach("end")
}

// C29_at: element access at every index, inside and outside the slice, of the right and of another slice type.
func C29_at() {
	n := sym.Choice("n", sym.N(4, 7))
	r, old := c29World(n)
	kind := choose("kind", "S", "I", "F", "B")
	of := kind
	if sym.Choice("mixed", 2) == 1 {
		of = choose("of", "S", "I", "F", "B")
	}
	name := map[string]string{"S": "String", "I": "Int", "F": "Float", "B": "Bool"}[kind]
	idx := sym.Int("idx")
	var seen []interface{}
	var err error
	crashed := func() (crash bool) {
		defer func() { crash = recover() != nil }()
		seen, _, err = c29Run(c29Form("$slices."+name+"At("+c29Src(of)+", $idx)"), r, append(c29More(), v("idx", idx))...)
		return
	}()
	sym.Assert(r.same(old), "the argument is not modified")
	if of != kind {
		sym.Assert(!crashed && err != nil, "another slice type is an error")
		sym.Reach("end")
		return
	}
	if idx < 0 || idx >= n {
		sym.Assert(crashed || err != nil, "an index outside the slice never yields a value")
		sym.Reach("end")
		return
	}
	sym.Assert(!crashed && err == nil && len(seen) == 1, "the function is called once and succeeds")
	k := sym.ConcreteInt(idx)
	var ok bool
	switch kind {
	case "S":
		ok = seen[0] == interface{}(old.S[k])
	case "I":
		ok = seen[0] == interface{}(old.I[k])
	case "F":
		f, is := seen[0].(float64)
		ok = is && sym.SameFloat(f, old.F[k])
	default:
		ok = seen[0] == interface{}(old.B[k])
	}
	sym.Assert(ok, "the element at the index is returned")
	sym.Reach("end")
}

// C29_length: the length of slices of every kind and of every other value that has one.
func C29_length() {
	n := sym.Choice("n", sym.N(4, 6))
	kind := sym.Choice("kind", sliceKinds+5)
	var val interface{}
	want := n
	var same func(i int, x interface{}) bool
	switch kind - sliceKinds {
	case 0:
		val, want = [3]int{1, 2, 3}, 3
	case 1:
		m := map[string]int{}
		for i := 0; i < n; i++ {
			m[strconv.Itoa(i)] = i
		}
		val = m
	case 2:
		s := sym.Str("s", 3)
		val, want = s, len(s)
	case 3:
		val, want = []int(nil), 0
	case 4:
		back := []int{1, 2, 3, 4, 5, 6, 7}
		val = back[1 : 1+n : 6+n/6]
	default:
		val, same = anySlice(kind, n)
	}
	p := velty.New()
	var seen []interface{}
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "function registers")
	more := c29More()
	vars := append([]kv{v("x", val)}, more...)
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(c29Form("$slices.Length($x)")))
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil && len(seen) == 1, "the function is called once and succeeds")
	sym.Assert(seen[0] == interface{}(want), "the length is returned")
	sym.Assert(functions.Slices{}.Length(val) == want, "the length is returned to a direct caller")
	if same != nil {
		switch xs := val.(type) {
		case []int:
			for i := range xs {
				sym.Assert(same(i, xs[i]), "the argument is not modified")
			}
		case []string:
			for i := range xs {
				sym.Assert(same(i, xs[i]), "the argument is not modified")
			}
		}
	}
	sym.Reach("end")
}

// C29_in: membership.
func C29_in() {
	n := sym.Choice("n", sym.N(4, 6))
	r, old := c29World(n)
	q := sym.Str("q", 2)
	want := false
	for _, s := range old.S {
		want = sym.Or(want, s == q)
	}
	seen, _, err := c29Run(c29Form("$strings.In("+c29Src("S")+", $x)"), r, append(c29More(), v("x", q))...)
	sym.Assert(err == nil && len(seen) == 1, "the function is called once and succeeds")
	sym.Assert(seen[0] == interface{}(want), "a value is in the slice iff an element equals it")
	sym.Assert(r.same(old), "the argument is not modified")
	sym.Reach("end")
}

// C29_walk: visiting a reversed slice, and indexing it, agrees with the elements of the argument.
func C29_walk() {
	n := sym.Choice("n", sym.N(4, 6))
	r, old := c29World(n)
	kind := choose("kind", "S", "I")
	fn := map[string]string{"S": "Strings", "I": "Ints"}[kind]
	at := map[string]string{"S": "String", "I": "Int"}[kind]
	src := c29Src(kind)
	tpl := "$slices.Length(" + src + ")#set($x = $slices.Reverse" + fn + "(" + src + "))$slices.Length($x)"
	want := strconv.Itoa(n) + strconv.Itoa(n)
	text := func(i int) string {
		if kind == "S" {
			return old.S[i]
		}
		return strconv.Itoa(old.I[i])
	}
	tpl += "#foreach($e in $x)[$e]#end"
	for i := n - 1; i >= 0; i-- {
		want += "[" + text(i) + "]"
	}
	tpl += "#foreach($e in " + src + ")<$e>#end"
	for i := 0; i < n; i++ {
		want += "<" + text(i) + ">"
	}
	for i := 0; i < n; i++ {
		tpl += "|$slices." + at + "At($x, " + strconv.Itoa(i) + ")$x[" + strconv.Itoa(i) + "]"
		want += "|" + text(n-1-i) + text(n-1-i)
	}
	_, out, err := c29Run(tpl, r, c29More()...)
	sym.Assert(err == nil && out == want, "elements are in the order of the slice")
	sym.Assert(r.same(old), "the argument is not modified")
	sym.Reach("end")
}
