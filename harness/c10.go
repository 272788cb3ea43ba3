package main

import (
	"strconv"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c10Rec struct {
	P              byte
	B0, B1, B2, B3 bool
	In             *c10In
}

type c10In struct {
	P              byte
	B0, B1, B2, B3 bool
}

func (r *c10Rec) M0() bool { return r.B0 }
func (r *c10Rec) M1() bool { return r.B1 }
func (r *c10Rec) M2() bool { return r.B2 }
func (r *c10Rec) M3() bool { return r.B3 }

type c10W struct {
	c    [6]bool
	n    int
	s    string
	f    float64
	rec  *c10Rec
	vars []kv
}

func c10World() *c10W {
	w := &c10W{n: sym.Int("n"), s: sym.Str("s", 2), f: sym.Float64("f")}
	w.rec = &c10Rec{In: &c10In{}}
	for i := range w.c {
		w.c[i] = sym.Bool("c" + strconv.Itoa(i))
	}
	w.rec.B0, w.rec.B1, w.rec.B2, w.rec.B3 = w.c[0], w.c[1], w.c[2], w.c[3]
	w.rec.In.B0, w.rec.In.B1, w.rec.In.B2, w.rec.In.B3 = w.c[0], w.c[1], w.c[2], w.c[3]
	w.vars = []kv{v("n", w.n), v("s", w.s), v("f", w.f), v("r", w.rec), v("v", *w.rec)}
	for i := range w.c {
		w.vars = append(w.vars, v("c"+strconv.Itoa(i), w.c[i]))
	}
	return w
}

const c10Styles = 14

// cond is the i-th condition in a style: its spelling and its value, computed when asked for.
func (w *c10W) cond(style, i int) (string, func() bool) {
	k := strconv.Itoa(i)
	switch style {
	case 0:
		return "$c" + k, func() bool { return w.c[i] }
	case 1:
		return "$r.B" + k, func() bool { return w.c[i] }
	case 2:
		return "$n == " + k, func() bool { return w.n == i }
	case 3:
		return "$n > " + k, func() bool { return w.n > i }
	case 4:
		lit := []string{"a", "", "ab", "b"}[i]
		return "$s == \"" + lit + "\"", func() bool { return w.s == lit }
	case 5:
		return "!$c" + k, func() bool { return !w.c[i] }
	case 6:
		return "$c" + k + " && $c" + strconv.Itoa(i+1), func() bool { return sym.And(w.c[i], w.c[i+1]) }
	case 7:
		return "$c" + k + " || $c" + strconv.Itoa(i+2), func() bool { return sym.Or(w.c[i], w.c[i+2]) }
	case 8:
		return "$r.M" + k + "()", func() bool { return w.c[i] }
	case 9:
		return "$f <= " + k + ".5", func() bool { return w.f <= float64(i)+0.5 }
	case 10:
		return "${v.In.B" + k + "}", func() bool { return w.c[i] }
	case 11:
		return "($n + " + k + ") != 3", func() bool { return w.n+i != 3 }
	case 12:
		return "$idB($c" + k + ")", func() bool { return w.c[i] }
	default:
		return "!$r.In.B" + k, func() bool { return !w.c[i] }
	}
}

func c10ID(b bool) bool { return b }

func (w *c10W) render(tpl string) string {
	p := velty.New()
	sym.Assert(p.RegisterFunction("idB", c10ID) == nil, "function registers")
	for _, x := range w.vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	set(st, w.vars...)
	sym.Assert(ex.Exec(st) == nil, "template executes: "+tpl)
	return st.Buffer.String()
}

// C10_chain: every chain length, with and without else, every kind of condition.
func C10_chain() {
	w := c10World()
	style := sym.Choice("style", c10Styles+1)
	n := sym.Choice("elseifs", 4)
	els := sym.Choice("else", 3)
	styleOf := func(i int) int {
		if style == c10Styles {
			return (i*5 + n + 1) % c10Styles
		}
		return style
	}
	body := func(i int) string { return "<" + strconv.Itoa(i) + ">" }
	sp, c := w.cond(styleOf(0), 0)
	conds := []func() bool{c}
	tpl := "pre #if(" + sp + ")" + body(0)
	for i := 1; i <= n; i++ {
		sp, c = w.cond(styleOf(i), i)
		conds = append(conds, c)
		tpl += "#elseif(" + sp + ")" + body(i)
	}
	if els > 0 {
		tpl += []string{"", "#else", "#{else}"}[els] + "<else>"
	}
	tpl += "#end post"
	want := ""
	if els > 0 {
		want = "<else>"
	}
	for i, c := range conds {
		if c() {
			want = body(i)
			break
		}
	}
	sym.Assert(w.render(tpl) == "pre "+want+" post", "the first true branch is rendered: "+tpl)
	sym.Reach("end")
}

// tree is a nested conditional with its expected output.
func (w *c10W) tree(depth int, id string, style int, budget *int) (string, func() string) {
	tag := "<" + id + ">"
	shape := 0
	if depth > 0 && *budget > 0 {
		shape = sym.Choice("shape"+id, 7)
	}
	if shape == 0 {
		return tag, func() string { return tag }
	}
	*budget--
	ci := len(id) % 4
	sp, c := w.cond((style+len(id))%c10Styles, ci)
	sp2, c2 := w.cond((style+len(id)+3)%c10Styles, (ci+1)%4)
	a, ra := w.tree(depth-1, id+"a", style, budget)
	switch shape {
	case 1:
		return "#if(" + sp + ")" + a + "#end", func() string {
			if c() {
				return ra()
			}
			return ""
		}
	case 2:
		b, rb := w.tree(depth-1, id+"b", style, budget)
		return "#if(" + sp + ")" + a + "#else" + b + "#end", func() string {
			if c() {
				return ra()
			}
			return rb()
		}
	case 3:
		b, rb := w.tree(depth-1, id+"b", style, budget)
		return "#if(" + sp + ")" + a + "#elseif(" + sp2 + ")" + b + "#end", func() string {
			if c() {
				return ra()
			}
			if c2() {
				return rb()
			}
			return ""
		}
	case 4:
		b, rb := w.tree(depth-1, id+"b", style, budget)
		return "#if(" + sp + ")#elseif(" + sp2 + ")" + a + "#{else}" + b + "#end", func() string {
			if c() {
				return ""
			}
			if c2() {
				return ra()
			}
			return rb()
		}
	case 5:
		b, rb := w.tree(depth-1, id+"b", style, budget)
		return tag + "#if(" + sp + ")" + a + "#end-#if(" + sp2 + ")" + b + "#end", func() string {
			r := tag
			if c() {
				r += ra()
			}
			r += "-"
			if c2() {
				r += rb()
			}
			return r
		}
	default:
		return "#if(" + sp + ")x#if(" + sp2 + ")" + a + "#else y#end z#end", func() string {
			if c() {
				if c2() {
					return "x" + ra() + " z"
				}
				return "x y z"
			}
			return ""
		}
	}
}

// C10_nest: nested conditionals are independent of each other.
func C10_nest() {
	w := c10World()
	budget := sym.N(3, 4)
	style := sym.Choice("style", sym.N(2, 4)) * 6
	tpl, want := w.tree(sym.N(2, 3), "t", style, &budget)
	sym.Assert(w.render("["+tpl+"]") == "["+want()+"]", "nested conditionals: "+tpl)
	sym.Reach("end")
}

// C10_loop: a conditional inside a loop is decided in each iteration.
func C10_loop() {
	k := sym.N(3, 5)
	xs := make([]int, k)
	for i := range xs {
		xs[i] = sym.Int("x" + strconv.Itoa(i))
	}
	t := sym.Int("t")
	r := &struct {
		P byte
		T int
	}{T: t}
	loop := choose("loop", "#foreach($x in $xs)", "#for($i = 0; $i < "+strconv.Itoa(k)+"; $i++)#set($x = $xs[$i])")
	ref := choose("ref", "$t", "$r.T")
	tpl := loop + "#if($x < " + ref + ")L#elseif($x == " + ref + ")E#else G#end;#end"
	want := ""
	for _, x := range xs {
		if x < t {
			want += "L;"
		} else if x == t {
			want += "E;"
		} else {
			want += " G;"
		}
	}
	sym.Assert(render(tpl, v("xs", xs), v("t", t), v("r", r)) == want, "decided in each iteration")
	sym.Reach("end")
}

// C10_once: conditions are evaluated in order, each at most once, and only up to the first true one.
func C10_once() {
	n := sym.Choice("elseifs", 3)
	els := sym.Choice("else", 2) == 1
	bodies := sym.Choice("bodies", 3) // all, none, all but the first
	body := func(i int) string {
		if bodies == 1 || bodies == 2 && i == 0 {
			return ""
		}
		return "b" + strconv.Itoa(i)
	}
	var calls []int
	c := make([]bool, n+1)
	for i := range c {
		c[i] = sym.Bool("c" + strconv.Itoa(i))
	}
	p := velty.New()
	sym.Assert(p.RegisterFunction("q", func(i int) bool { calls = append(calls, i); return c[i] }) == nil, "function registers")
	tpl := "#if($q(0))" + body(0)
	for i := 1; i <= n; i++ {
		tpl += "#elseif($q(" + strconv.Itoa(i) + "))" + body(i)
	}
	be := "be"
	if bodies == 1 {
		be = ""
	}
	if els {
		tpl += "#{else}" + be
	}
	ex, ns, err := p.Compile([]byte(tpl + "#end"))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	sym.Assert(ex.Exec(st) == nil, "executes")
	want, last := "", n
	if els {
		want = be
	}
	for i := range c {
		if c[i] {
			want, last = body(i), i
			break
		}
	}
	sym.Assert(st.Buffer.String() == want, "the first true branch")
	sym.Assert(len(calls) == last+1, "conditions after the first true one are not evaluated, the others once")
	for i := range calls {
		sym.Assert(calls[i] == i, "conditions are evaluated in order")
	}
	sym.Reach("end")
}

// C10_update: a body that changes the value a condition was decided on.
func C10_update() {
	x := sym.Int("x")
	b := sym.Bool("b")
	switch sym.Choice("case", 4) {
	case 0:
		out := render("#if($x == 1)#set($x = 2)a#elseif($x == 2)b#else c#end$x", v("x", x))
		want := " c" + strconv.Itoa(x)
		if x == 1 {
			want = "a2"
		} else if x == 2 {
			want = "b" + strconv.Itoa(x)
		}
		sym.Assert(out == want, "only one branch runs")
	case 1:
		out := render("#if($b)#set($b = false)#if($b)a#{else}c#end#end#if($b)d#{else}e#end", v("b", b))
		want := "e"
		if b {
			want = "ce"
		}
		sym.Assert(out == want, "later conditions see the new value")
	case 2:
		r := &c10In{B0: b}
		out := render("#if($r.B0)#set($r.B0 = false)a#elseif(!$r.B0)b#end#if($r.B0)c#end", v("r", r))
		want := "b"
		if b {
			want = "a"
		}
		sym.Assert(out == want, "only one branch runs")
	default:
		out := render("#if($x > 5)#set($b = true)#else#set($b = false)#end#if($b)y#{else}n#end", v("x", x), v("b", b))
		want := "n"
		if x > 5 {
			want = "y"
		}
		sym.Assert(out == want, "a value assigned in a branch")
	}
	sym.Reach("end")
}
