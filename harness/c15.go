package main

import (
	"errors"
	"strconv"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

type c15In struct {
	N int
	S string
}

type c15Rec struct {
	P  byte
	N  int
	S  string
	B  bool
	In *c15In
	L  []int
	Q  byte
}

func (r *c15Rec) Get() int       { return r.N }
func (r *c15Rec) Bump(i int) int { r.N += i; return r.N }
func (r c15Rec) Name() string    { return r.S + "!" }

// c15Case is the set of values one state is given.
type c15Case struct {
	x, y int
	s    string
	b    bool
	f    float64
	xs   []int
	strs []string
	m    map[string]int
	tpl  string
	rec  c15Rec
	prec *c15Rec
	nilp *c15Rec
	pi   *int
}

func c15New(k string) *c15Case {
	c := &c15Case{x: sym.Int("x" + k), y: sym.Int("y" + k), s: sym.Str("s"+k, 1), b: sym.Bool("b" + k)}
	c.f = float64(1.5)
	c.xs = []int{sym.Int("e" + k), 7}
	c.strs = []string{"p" + k, "q"}
	c.tpl = "<$x>"
	if k == "1" {
		c.f, c.xs, c.strs, c.tpl = -2.25, []int{sym.Int("e" + k)}, nil, "($s)#set($y = $x)$y"
	}
	c.m = map[string]int{"k": c.x}
	if k == "1" {
		c.m = map[string]int{"k": c.y, "l": 1}
	}
	c.rec = c15Rec{P: 1, N: c.y, S: c.s, B: c.b, In: &c15In{N: c.x, S: "in" + k}, L: c.xs, Q: 2}
	if k == "1" {
		c.rec.In = nil
		c.nilp = &c15Rec{N: 9, S: "n9"}
	}
	c.prec = &c15Rec{P: 1, N: c.x, S: "p" + k, B: !c.b, In: &c15In{N: c.y, S: c.s}, L: c.xs, Q: 2}
	n := c.x
	c.pi = &n
	return c
}

// vars returns fresh copies so that no execution can see what another one did to shared memory.
func (c *c15Case) vars() []kv {
	prec, in := *c.prec, *c.prec.In
	prec.In = &in
	var nilp *c15Rec
	if c.nilp != nil {
		x := *c.nilp
		nilp = &x
	}
	rec := c.rec
	if rec.In != nil {
		x := *rec.In
		rec.In = &x
	}
	return []kv{v("x", c.x), v("y", c.y), v("s", c.s), v("b", c.b), v("f", c.f), v("xs", append([]int{}, c.xs...)), v("strs", c.strs), v("m", c.m), v("tpl", c.tpl),
		v("rec", rec), v("prec", &prec), v("nilp", nilp)}
}

func c15Plan(tpl string, opts []velty.Option, c *c15Case) (*est.Execution, func() *est.State) {
	p := velty.New(opts...)
	for _, d := range c.vars() {
		sym.Assert(p.DefineVariable(d.name, d.val) == nil, "variable can be defined")
	}
	sym.Assert(p.RegisterFunction("inc", func(i int) int { return i + 1 }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("pair", func(a string, i int, b bool) (string, error) {
		if b {
			return a, nil
		}
		return a, errors.New("no")
	}) == nil, "function registers")
	sym.Assert(p.RegisterFunction("rev", func(a []int) []int {
		r := []int{}
		for i := range a {
			r = append(r, a[len(a)-1-i])
		}
		return r
	}) == nil, "function registers")
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	return ex, ns
}

var c15Texts = []string{
	"$x ${s}$b$f", "#set($x = $x + 1)$x", "#set($z = $x)#set($z = $z * 2)$z", "#set($n = 0)#foreach($e in $xs)#set($n = $n + $e)$n,#end",
	"#for($i = 0; $i < 3; $i++)$i$x#end", "#if($x > $y)g#elseif($b)b#{else}n#end", "$rec.N$rec.S$rec.In.N|$rec.In.S", "$prec.In.N#set($prec.In.N = $x)$prec.In.N",
	"$nilp.S$nilp.N", "$nilp.In.S.#set($nilp.In.S = \"w\")$nilp.In.S.", "$inc($x)$inc($inc($y))", "$pair($s, $x, $b)", "$prec.Get()$prec.Bump(1)$prec.Get()", "$rec.Name()",
	"#evaluate($tpl)", "#evaluate($tpl)#set($x = 3)#evaluate($tpl)", "#set($t = \"a\" + $s)#set($t = $t + \"b\")$t", "${m[\"k\"]}", "$xs[0]#set($xs[0] = 5)$xs[0]", "#foreach($e in $strs)$e;#end",
	"#foreach($e in $rev($xs))$e;#end", "#set($c = $x + $y * 2)#if($c == $x)e#{else}$c#end", "#set($w = $rec.In.N)$w#set($rec.In.N = 4)$w", "#if($b)#set($k = 1)#{else}#set($k = 2)#end$k",
	"#set($rec.S = \"z\")$rec.S", "#foreach($e in [1...3])#set($y = $y + $e)#end$y", "$m.HasKey(\"l\")", "#set($q = $prec.In.S)$q$strings.ToUpper(\"ab\")",
	"$xs|$strs", "<$m>", "$rec|$s", "#if($b)$prec#end$xs", "$nilp,$rec.L", "#set($k = $xs)$k#set($k2 = $m)$k2", "#foreach($e in $xs)$xs$m#end",
}

func c15Opts() []velty.Option {
	switch sym.Choice("opts", 2) {
	case 1:
		return []velty.Option{velty.EscapeHTML(true), velty.CacheSize(1), velty.BufferSize(1)}
	}
	return nil
}

type c15Out struct {
	out string
	err bool
}

func c15Exec(ex *est.Execution, st *est.State) c15Out {
	err := ex.Exec(st)
	return c15Out{st.Buffer.String(), err != nil}
}

func c15Alone(tpl string, opts []velty.Option, c *c15Case) c15Out {
	ex, ns := c15Plan(tpl, opts, c)
	st := ns()
	set(st, c.vars()...)
	return c15Exec(ex, st)
}

// C15_interleave: two states with their own values, created, filled and executed in any order.
func C15_interleave() {
	tpl := c15Texts[sym.Choice("text", len(c15Texts))]
	opts := c15Opts()
	a, b := c15New("0"), c15New("1")
	wantA, wantB := c15Alone(tpl, opts, a), c15Alone(tpl, opts, b)
	ex, ns := c15Plan(tpl, opts, a)
	var sa, sb *est.State
	var gotA, gotB c15Out
	switch sym.Choice("order", 4) {
	case 0:
		sa = ns()
		sb = ns()
		set(sa, a.vars()...)
		set(sb, b.vars()...)
		gotA, gotB = c15Exec(ex, sa), c15Exec(ex, sb)
	case 1:
		sa = ns()
		set(sa, a.vars()...)
		sb = ns()
		set(sb, b.vars()...)
		gotB, gotA = c15Exec(ex, sb), c15Exec(ex, sa)
	case 2:
		sa = ns()
		set(sa, a.vars()...)
		gotA = c15Exec(ex, sa)
		sb = ns()
		set(sb, b.vars()...)
		gotB = c15Exec(ex, sb)
	case 3:
		sb = ns()
		set(sb, b.vars()...)
		gotB = c15Exec(ex, sb)
		sa = ns()
		set(sa, a.vars()...)
		gotA = c15Exec(ex, sa)
	}
	sym.Assert(gotA.out == wantA.out && gotA.err == wantA.err, "the first state renders its own values: "+tpl)
	sym.Assert(gotB.out == wantB.out && gotB.err == wantB.err, "the second state renders its own values: "+tpl)
	sym.Assert(sa.Buffer.String() == wantA.out && sb.Buffer.String() == wantB.out, "an output does not change when another state is executed")
	sym.Reach("end")
}

// C15_reset: a state executed again after a reset gives the same output again.
func C15_reset() {
	tpl := c15Texts[sym.Choice("text", len(c15Texts))]
	opts := c15Opts()
	a, b := c15New("0"), c15New("1")
	wantA, wantB := c15Alone(tpl, opts, a), c15Alone(tpl, opts, b)
	ex, ns := c15Plan(tpl, opts, a)
	st := ns()
	for i := 0; i < 3; i++ {
		c, want := a, wantA
		if i == 1 {
			c, want = b, wantB
		}
		set(st, c.vars()...)
		got := c15Exec(ex, st)
		sym.Assert(got.out == want.out && got.err == want.err, "a reset state renders the values it is given: "+tpl)
		st.Reset()
		sym.Assert(st.Buffer.String() == "" && st.IsValid() && len(st.Errors) == 0, "a reset state is empty and valid")
	}
	sym.Reach("end")
}

// C15_append: without a reset the outputs of executions follow each other.
func C15_append() {
	tpl := c15Texts[sym.Choice("text", len(c15Texts))]
	a, b := c15New("0"), c15New("1")
	if tpl == c15Texts[11] {
		return
	}
	wantA, wantB := c15Alone(tpl, nil, a), c15Alone(tpl, nil, b)
	ex, ns := c15Plan(tpl, nil, a)
	st := ns()
	set(st, a.vars()...)
	c15Exec(ex, st)
	set(st, b.vars()...)
	sym.Assert(c15Exec(ex, st).out == wantA.out+wantB.out, "executions without a reset append")
	sym.Reach("end")
}

// C15_plans: plans compiled from one planner do not influence each other.
func C15_plans() {
	t1 := c15Texts[sym.Choice("t1", sym.N(10, len(c15Texts)))]
	t2 := c15Texts[(sym.Choice("t2", sym.N(6, len(c15Texts)))*5+1)%len(c15Texts)]
	a := c15New("0")
	want1, want2 := c15Alone(t1, nil, a), c15Alone(t2, nil, a)
	ex1, ns1 := c15Plan(t1, nil, a)
	ex2, ns2 := c15Plan(t2, nil, a)
	s1, s2 := ns1(), ns2()
	set(s2, a.vars()...)
	set(s1, a.vars()...)
	got2, got1 := c15Exec(ex2, s2), c15Exec(ex1, s1)
	sym.Assert(got1.out == want1.out && got2.out == want2.out, "plans are independent: "+t1+" and "+t2)
	s3 := ns1()
	set(s3, a.vars()...)
	sym.Assert(c15Exec(ex1, s3).out == want1.out, "a plan is reusable: "+t1)
	sym.Reach("end")
}

// C15_many: one plan, many states, concrete values.
func C15_many() {
	n := sym.N(4, 8)
	x := sym.Int("x")
	ex, ns := plan("#set($acc = $acc + $x)#foreach($i in [0...2])#set($acc = $acc + $i)#end$acc|$name", nil, v("x", 0), v("acc", 0), v("name", ""))
	states := make([]*est.State, n)
	for i := range states {
		states[i] = ns()
		set(states[i], v("x", x+i), v("acc", i), v("name", "n"+strconv.Itoa(i)))
	}
	at := sym.Choice("first", n)
	for k := range states {
		i := (at + k*3) % n
		if n%3 == 0 {
			i = (at + k) % n
		}
		sym.Assert(ex.Exec(states[i]) == nil, "execution succeeds")
	}
	for i := range states {
		sym.Assert(states[i].Buffer.String() == strconv.Itoa(x+i+i+1)+"|n"+strconv.Itoa(i), "every state renders its own values")
	}
	sym.Reach("end")
}
