package main

import (
	"errors"
	"reflect"
	"strconv"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

// c30Shared is data two states may both refer to; executions only read it.
type c30Shared struct {
	xs   []int
	strs []string
	m    map[string]int
	im   map[interface{}]int
	rec  *c14Rec
	rows []c30Row
}

type c30Row struct {
	P   byte
	Key string
	V   int
	N   *c30Row
}

func (r *c30Row) Get() int            { return r.V }
func (r c30Row) Name(s string) string { return r.Key + s }

func c30Data() *c30Shared {
	d := &c30Shared{xs: []int{4, 5}, strs: []string{"p", "<q>"}, m: map[string]int{"k": 1, "l": 2}, im: map[interface{}]int{"k": 1, 3: 2}}
	d.rec = &c14Rec{P: 1, S: "s", N: 3, B: true, Tpl: "$x", In: &c14In{N: 8}, List: d.strs}
	d.rows = []c30Row{{Key: "a", V: 1}, {Key: "b", V: 2, N: &c30Row{V: 3}}}
	return d
}

// c30Own is the data of one state.
type c30Own struct {
	x, y int
	s, h string
	b    bool
	f    float64
	dyn  string
	prec *c14Rec
	d    *c30Shared

	again func() // called by the functions $pass...
}

func c30Mine(id string, d *c30Shared) *c30Own {
	o := &c30Own{x: sym.Int("x" + id), y: sym.Int("y" + id), s: "s" + id, h: "<" + id + ">", b: sym.Bool("b" + id), f: 1.5, d: d}
	o.prec = &c14Rec{S: id, N: o.x, In: &c14In{N: o.y}, List: d.strs}
	return o
}

func (o *c30Own) vars() []kv {
	prec, in := *o.prec, *o.prec.In
	prec.In = &in
	return []kv{v("x", o.x), v("y", o.y), v("s", o.s), v("h", o.h), v("b", o.b), v("f", o.f), v("dyn", o.dyn), v("prec", &prec), v("rec", *o.d.rec), v("xs", o.d.xs), v("strs", o.d.strs), v("m", o.d.m), v("im", o.d.im),
		v("rows", o.d.rows), v("shared", o.d.rec), v("nilp", (*c14Rec)(nil)), v("any", []interface{}{1, "a", nil}), v("pb", (*bool)(nil)), v("i8", int8(3)), v("pi", &o.x), v("u8", uint8(200)), v("rowp", &o.d.rows[1])}
}

func c30Compile(tpl string, o *c30Own, opts []velty.Option) (*est.Execution, func() *est.State) {
	p := velty.New(opts...)
	for _, d := range o.vars() {
		sym.Assert(p.DefineVariable(d.name, d.val) == nil, "variable can be defined")
	}
	reg := func(name string, fn interface{}) {
		sym.Assert(p.RegisterFunction(name, fn) == nil, "function registers")
	}
	reg("inc", func(i int) int { return i + 1 })
	reg("cat", func(a, b string) string { return a + b })
	reg("ident", func(a interface{}) interface{} { return a })
	reg("five", func(a, b, c, d, e int) int { return a + 2*b + 3*c + 4*d + 5*e })
	reg("vary", func(a string, b ...int) string { return a + strconv.Itoa(len(b)) })
	again := func() {
		if o.again != nil {
			o.again()
		}
	}
	reg("pass", func(i int) int { again(); return i })
	reg("passs", func(s string) string { again(); return s })
	reg("passb", func(b bool) bool { again(); return b })
	reg("passpi", func(i *int) *int { again(); return i })
	reg("passf", func(f float64) float64 { again(); return f })
	reg("passany", func(a interface{}) interface{} { again(); return a })
	reg("passr", func(r *c14Rec) *c14Rec { again(); return r })
	reg("null", func() *c14Rec { return nil })
	reg("fail", func(i int) (int, error) {
		if i < 0 {
			return 0, errors.New("failed")
		}
		return i, nil
	})
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	return ex, ns
}

type c30Out struct {
	text   string
	failed bool
}

func c30Exec(ex *est.Execution, ns func() *est.State, o *c30Own) c30Out {
	st := ns()
	set(st, o.vars()...)
	err := ex.Exec(st)
	return c30Out{st.Buffer.String(), err != nil}
}

var c30Ops = []string{
	"#set($z = $s + $passs($h))$z#set($z = $passs($h) + $s)$z#set($z = $s + $h)$z#set($z = \"k\" + $passs($s) + $prec.S)$z",
	"#if($s == $passs($s))1#end#if($passs($s) != $h)2#end#if($s == $h)3#end#if($prec.S != $s)4#end",
	"#set($z = $x + $pass($y))$z#set($z = $pass($y) - $x)$z#set($z = $x * $pass(3))$z#set($z = $pass($x) / 2)$z#set($z = $x % 7)$z",
	"#if($x < $pass($y))1#end#if($pass($x) >= $y)2#end#if($x == $pass($y))3#end#if($pass($y) != $x)4#end",
	"#set($z = $f + $passf($f))$z#set($z = $passf($f) * 2)$z#set($z = $x + $passf($f))$z#set($z = $passf($f) / 2.0)$z#set($z = $f - $passf($f))$z",
	"#if($f <= $passf(2.5))1#end#if($passf($f) > $x)2#end#if($passf($f) == $f)3#end#if($f != $passf($f))4#end",
	"#if($b && $passb($b))1#end#if($passb($b) || $b)2#end#if($b == $passb($b))3#end#if($passb($b) != $b)4#end#if(!$passb($b))5#end",
	"#if($pi == $passpi($pi))1#end#if($passpi($pi) != $pi)2#end#if($pi > $passpi($pi))3#end#if($pb == $pb)4#end#if($pi >= $pi)5#end",
	"#set($z = ($x + $pass($y)) * ($pass($x) - $y))$z#set($x = $pass($x))#set($x += 1)$x#set($s += $passs($h))$s",
}

var c30Texts = append(append([]string{
	"#if($pb)a#{else}b#end#if($i8)c#end#if($u8 > $i8)d#end", "$fail($x)", "#set($z = $fail($x))$z", "$five($x, 1, $y, 2, $x)", "$vary(\"a\", $x, $y)$vary($s)",
	"#set($idx = $rows.IndexBy(\"Key\"))$idx.HasKey(\"b\")#set($r = $idx[\"b\"])$r.V", "$rowp.Get()$rows[0].Name($s)$rows[1].N.V$rows[0].N.V", "$im.HasKey($i8)$im[\"k\"]$maps.Get($m, \"k\")",
	"$any[0]$any[1]", "$shared.N$shared.In.N$shared.Add($x)$shared.Join($h)", "$rec $i8 $u8 $any", "#set($f = $f + $x)#set($q = $y / 2)#set($w = $y % 3)$q$w", "$slices.ReverseInts($xs)$slices.IntAt($xs, 1)",
	"$strings.Split(\"a,b\", \",\")$strings.In($strs, $s)", "#set($nilp.N = $x)$nilp.N", "#set($prec.In.N = $x)$prec.In.N", "$null()#if($null())1#end", "$rowp.N.V $rowp.N.Get()", "$strconv.Atoi(\"12\")$strconv.Itoa($x)$math.Max(1.5, $f)",
	"#set($loc = $xs)#foreach($e in $loc)#set($x = $x + $e)#end$x", "#set($l8 = $i8)#set($u8 = $u8 + 1)$l8$u8", "#for($i = 0; $i < 2; $i++)$i#if($b)$x#{else}$y#end#end", "$types.IsInt($x)$types.IsString($s)",
	"#if($x == $y)1#elseif($x != $i8)2#end#if($nilp)3#end#if($strs)4#end", "#evaluate($shared.Tpl)#evaluate($dyn)", "#evaluate(\"abc\")#evaluate($h)",
}, c30Ops...), c14Texts...)

// C30_plan: one plan, two executions at the same time, for every construct.
func C30_plan() {
	tpl := c30Texts[sym.Choice("tpl", len(c30Texts))]
	var opts []velty.Option
	if sym.Choice("opts", 2) == 1 {
		opts = []velty.Option{velty.EscapeHTML(true), velty.CacheSize(5)}
	}
	d := c30Data()
	a, b := c30Mine("a", d), c30Mine("b", d)
	a.dyn, b.dyn = "$x+$h#if($x + 1 > $y)1#end", "$x+$h#if($x + 1 > $y)1#end"
	ex, ns := c30Compile(tpl, a, opts)
	var ra, rb c30Out
	sym.Go(func() { ra = c30Exec(ex, ns, a) }, func() { rb = c30Exec(ex, ns, b) })
	ex, ns = c30Compile(tpl, a, opts)
	wa := c30Exec(ex, ns, a)
	ex, ns = c30Compile(tpl, a, opts)
	wb := c30Exec(ex, ns, b)
	sym.Assert(ra == wa, "an execution gives what it would give alone: "+tpl)
	sym.Assert(rb == wb, "an execution gives what it would give alone: "+tpl)
	sym.Reach("end")
}

var c30Within = append([]string{
	"$x$pass($y)$x", "$inc($pass($x))$inc($x)", "$five($x, $y, $pass($x), $x, $y)", "$vary($s, $x, $pass($y), $x)", "$cat($s, $passs($h))$cat($passs($h), $s)",
	"#set($z = $x + $pass($y))$z$x", "#if($x > $pass($y))1#elseif($passb($b))2#{else}3#end$x", "#if($s == $passs($s))1#end$s", "#foreach($e in $xs)$e$pass($x)$e#end",
	"#for($i = 0; $i < $pass(2); $i++)$i$pass($x)#end$i", "#evaluate($dyn)$pass($x)#evaluate($dyn)", "$passr($prec).Add($x)$prec.N", "$shared.Add($pass($x))$shared.Join($passs($h))",
	"$m[$passs(\"k\")]$xs[$pass(1)]", "$any[$pass(1)]", "$ident($passany($x))$x", "$rows[$pass(1)].Name($passs($s))", "$maps.Get($m, $passs(\"k\"))$im.HasKey($pass(3))",
	"$slices.IntAt($xs, $pass(1))", "$strings.Split($passs(\"a,b\"), \",\")", "#set($nilp.N = $pass($x))$nilp.N", "#if($x + $pass($y) == $y + $pass($x))1#end", "$h$pass($x)$h$f",
	"#if($b && $passb($b))1#end#if(!$passb($b))2#end#if($pass($x))3#end", "$fail($pass($x))$s", "$pass($pass($x))$passs($cat($s, $passs($h)))", "#set($prec.In.N = $pass($x))$prec.In.N",
	"$rec$pass($x)$rec $any$pass($x)$any", "#foreach($e in $xs)#foreach($o in $strs)$e$o#if($pass($e) == 4)$x#end#end#end",
}, c30Ops...)

// C30_within: while a function called by an execution has not returned, the plan is executed with another state.
func C30_within() {
	tpl := c30Within[sym.Choice("tpl", len(c30Within))]
	var opts []velty.Option
	if sym.Choice("opts", 2) == 1 {
		opts = []velty.Option{velty.EscapeHTML(true), velty.CacheSize(5)}
	}
	d := c30Data()
	a, b := c30Mine("a", d), c30Mine("b", d)
	a.dyn, b.dyn = "$x$pass($y)$x#set($z = $x)$z", []string{"$x$pass($y)$x#set($z = $x)$z", "$y"}[sym.Choice("dyn", 2)]
	ex, ns := c30Compile(tpl, a, opts)
	wa := c30Exec(ex, ns, a)
	ex, ns = c30Compile(tpl, a, opts)
	wb := c30Exec(ex, ns, b)
	ex, ns = c30Compile(tpl, a, opts)
	var rb []c30Out
	within := func() {
		again := a.again
		a.again = nil
		rb = append(rb, c30Exec(ex, ns, b))
		a.again = again
	}
	a.again = within
	ra := c30Exec(ex, ns, a)
	a.again = nil
	sym.Assert(ra == wa, "an execution gives what it would give alone: "+tpl)
	for _, r := range rb {
		sym.Assert(r == wb, "an execution within another one gives what it would give alone: "+tpl)
	}
	sym.Assert(len(rb) > 0, "executed")
	sym.Reach("end")
}

// c30Step is one execution of a thread.
func c30Steps(id string, n int, d *c30Shared) []*c30Own {
	var r []*c30Own
	for i := 0; i < n; i++ {
		o := c30Mine(id+strconv.Itoa(i), d)
		o.dyn = []string{"A$x", "B${y}#set($z = $x + $y)$z", "C#foreach($e in $xs)$e#end$s", "D$fail($x)"}[sym.Choice("dyn"+id+strconv.Itoa(i), sym.N(3, 4))]
		r = append(r, o)
	}
	return r
}

// C30_cache: dynamic templates through a shared cache of any size.
func C30_cache() {
	size := []int{1, 8, 0, 2}[sym.Choice("size", sym.N(3, 4))]
	if size != 1 {
		sym.Opt("preemptions", sym.N(1, 2))
	}
	opts := []velty.Option{velty.CacheSize(size)}
	tpl := []string{"<#evaluate($dyn)>", "#evaluate($dyn)#evaluate($s)", "#foreach($o in $xs)#evaluate($dyn)#end"}[sym.Choice("tpl", sym.N(2, 3))]
	d := c30Data()
	na, nb := 1, sym.N(1, 2)
	as, bs := c30Steps("a", na, d), c30Steps("b", nb, d)
	ex, ns := c30Compile(tpl, as[0], opts)
	if sym.Choice("warm", 2) == 1 {
		w := c30Mine("w", d)
		w.dyn = "A$x"
		c30Exec(ex, ns, w)
	}
	ra, rb := make([]c30Out, na), make([]c30Out, nb)
	sym.Go(func() {
		for i, o := range as {
			ra[i] = c30Exec(ex, ns, o)
		}
	}, func() {
		for i, o := range bs {
			rb[i] = c30Exec(ex, ns, o)
		}
	})
	check := func(os []*c30Own, rs []c30Out) {
		for i, o := range os {
			ex, ns := c30Compile(tpl, o, []velty.Option{velty.CacheSize(0)})
			sym.Assert(c30Exec(ex, ns, o) == rs[i], "an execution gives what it would give alone: "+tpl)
		}
	}
	check(as, ra)
	check(bs, rb)
	// the cache is intact afterwards
	for i, o := range append(append([]*c30Own{}, as...), bs...) {
		got := c30Exec(ex, ns, o)
		want := append(append([]c30Out{}, ra...), rb...)[i]
		sym.Assert(got == want, "the plan renders the same afterwards: "+tpl)
	}
	sym.Reach("end")
}

// C30_three: three executions at the same time.
func C30_three() {
	sym.Opt("preemptions", sym.N(0, 2))
	opts := []velty.Option{velty.CacheSize(1)}
	tpl := []string{"#evaluate($dyn)", "$x#if($b)$h#end$cat($s, $h)$prec.N"}[sym.Choice("tpl", 2)]
	d := c30Data()
	os := []*c30Own{c30Mine("a", d), c30Mine("b", d), c30Mine("c", d)}
	for i, o := range os {
		o.dyn = []string{"A$x", "B$y"}[sym.Choice("dyn"+strconv.Itoa(i), 2)]
	}
	ex, ns := c30Compile(tpl, os[0], opts)
	rs := make([]c30Out, 3)
	sym.Go(func() { rs[0] = c30Exec(ex, ns, os[0]) }, func() { rs[1] = c30Exec(ex, ns, os[1]) }, func() { rs[2] = c30Exec(ex, ns, os[2]) })
	for i, o := range os {
		ex, ns := c30Compile(tpl, o, nil)
		sym.Assert(c30Exec(ex, ns, o) == rs[i], "an execution gives what it would give alone: "+tpl)
	}
	sym.Reach("end")
}

// C30_compile: planners of their own compile and execute at the same time.
func C30_compile() {
	i := sym.Choice("tpl", len(c30Texts))
	ta := c30Texts[i]
	tb := ta
	if sym.Choice("other", 2) == 1 {
		tb = c30Texts[(i*7+3)%len(c30Texts)]
	}
	d := c30Data()
	a, b := c30Mine("a", d), c30Mine("b", d)
	a.dyn, b.dyn = "$x+$h", "$y-$s"
	var ra, rb c30Out
	run := func(tpl string, o *c30Own) c30Out {
		ex, ns := c30Compile(tpl, o, []velty.Option{velty.EscapeHTML(true)})
		return c30Exec(ex, ns, o)
	}
	sym.Go(func() { ra = run(ta, a) }, func() { rb = run(tb, b) })
	sym.Assert(ra == run(ta, a), "a planner gives what it would give alone: "+ta)
	sym.Assert(rb == run(tb, b), "a planner gives what it would give alone: "+tb)
	sym.Reach("end")
}

type C30Emb struct {
	E int
	F *int
}

// C30_types: the state types of a plan are shared by the states it makes; setting variables at the same time is safe.
func C30_types() {
	d := c30Data()
	a, b := c30Mine("a", d), c30Mine("b", d)
	p := velty.New()
	sym.Assert(p.DefineVariable("x", 0) == nil && p.DefineVariable("pi", (*int)(nil)) == nil && p.DefineVariable("any", reflect.TypeOf(new(interface{})).Elem()) == nil, "variable can be defined")
	sym.Assert(p.EmbedVariable(C30Emb{}) == nil, "variable can be embedded")
	ex, ns, err := p.Compile([]byte("$x$E#set($x = $x + 1)$x#if($pi)$pi#end$any"))
	sym.Assert(err == nil, "template compiles")
	pi := map[string]bool{a.s: sym.Choice("pia", 2) == 1, b.s: sym.Choice("pib", 2) == 1}
	run := func(o *c30Own) c30Out {
		st := ns()
		sym.Assert(st.SetValue("x", o.x) == nil, "SetValue succeeds")
		sym.Assert(st.SetValue("any", o.s) == nil, "SetValue succeeds")
		sym.Assert(st.EmbedValue(C30Emb{E: o.y}) == nil, "EmbedValue succeeds")
		if pi[o.s] {
			n := 5
			sym.Assert(st.SetValue("pi", &n) == nil, "SetValue succeeds")
		}
		err := ex.Exec(st)
		return c30Out{st.Buffer.String(), err != nil}
	}
	var ra, rb c30Out
	sym.Go(func() { ra = run(a) }, func() { rb = run(b) })
	sym.Assert(!ra.failed && !rb.failed, "executions succeed")
	sym.Assert(ra == run(a), "an execution gives what it would give alone")
	sym.Assert(rb == run(b), "an execution gives what it would give alone")
	sym.Reach("end")
}
