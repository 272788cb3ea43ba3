package main

import (
	"errors"
	"strconv"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c14In struct {
	N   int
	Tpl string
}

type c14Rec struct {
	P    byte
	S    string
	N    int
	B    bool
	Tpl  string
	In   *c14In
	List []string
	Q    byte
}

func (r *c14Rec) Text() string        { return r.Tpl }
func (r *c14Rec) Add(i int) int       { return r.N + i }
func (r c14Rec) Join(s string) string { return r.S + s }

// c14W holds the variables every C14 template can use.
type c14W struct {
	x, y   int
	s, h   string
	b      bool
	f      float64
	xs     []int
	strs   []string
	m      map[string]int
	rec    c14Rec
	prec   *c14Rec
	nilp   *c14Rec
	opts   []velty.Option
	extra  []kv
	failed bool
}

func c14World() *c14W {
	w := &c14W{x: sym.Int("x"), y: sym.Int("y"), s: sym.Str("s", 1), h: "a<b>&'\"c", b: sym.Bool("b"), f: 2.5,
		xs: []int{sym.Int("e0"), sym.Int("e1")}, strs: []string{"p", "q<"}}
	w.m = map[string]int{"k": w.x, "l": 5}
	w.rec = c14Rec{P: 1, S: w.s, N: w.y, B: w.b, In: &c14In{N: w.x}, List: w.strs, Q: 2}
	w.prec = &c14Rec{P: 1, S: w.h, N: w.x, B: !w.b, In: &c14In{N: w.y}, List: w.strs, Q: 2}
	return w
}

func (w *c14W) render(tpl string) (string, bool) {
	opts := append([]velty.Option{}, w.opts...)
	p := velty.New(opts...)
	rec, prec, in := w.rec, *w.prec, *w.prec.In
	prec.In = &in
	rec.In = &c14In{N: w.rec.In.N, Tpl: w.rec.In.Tpl}
	vars := []kv{v("x", w.x), v("y", w.y), v("s", w.s), v("h", w.h), v("b", w.b), v("f", w.f), v("xs", w.xs), v("strs", w.strs), v("m", w.m), v("rec", rec), v("prec", &prec), v("nilp", w.nilp)}
	vars = append(vars, w.extra...)
	for _, d := range vars {
		sym.Assert(p.DefineVariable(d.name, d.val) == nil, "variable can be defined")
	}
	sym.Assert(p.RegisterFunction("inc", func(i int) int { return i + 1 }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("cat", func(a, b string) string { return a + b }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("ident", func(a interface{}) interface{} { return a }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("fail", func(i int) (int, error) { return 0, errors.New("failed") }) == nil, "function registers")
	ex, ns, err := p.Compile([]byte(tpl))
	if err != nil {
		return "", false
	}
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	w.failed = err != nil
	return st.Buffer.String(), true
}

var c14Texts = []string{
	"", "plain <text> & more", "$x", "${x}|$y", "[$s]", "<${h}>", "$b$f", "$rec.S-${rec.N}", "$prec.In.N", "${prec.S}", "$nilp.S.$nilp.In.N.", "$undef ${undef.x} $!undef",
	"#if($x > $y)gt#elseif($x == $y)eq#{else}lt#end", "#if($b)#if($prec.B)1#{else}2#end#{else}3#end",
	"#foreach($e in $xs)$e,#end", "#foreach($e in $strs)<$e>#end", "#foreach($i in [1...4])$i #end", "#for($i = 0; $i < 3; $i++)$xs[1]$i #end",
	"#set($z = $x + 1)$z", "#set($x = $x + 1)$x", "#set($q = \"t\")#set($q = $q + $s)$q", "#set($prec.N = 5)$prec.N $prec.Add(2)",
	"$inc($x)", "$cat($s, \"-\")$cat($h,$s)", "$ident($h)", "$rec.Join(\"j\")", "$prec.Add($y)", "$strings.ToUpper($h)", "$xs[0]$strs[1]", "${m[\"k\"]}", "$m.HasKey(\"l\")",
	"#[[ $x #if( ]]#$x", "## comment\n$x", "a#b$ c", "#evaluate($s)", "#evaluate($h)", "#set($u = $h)$u#if($u == $h)same#end", "#foreach($r in $xs)#if($r < $x)#set($y = $r)#end#end$y",
	"#set($cnt = 0)#foreach($e in $xs)#set($cnt = $cnt + 1)#end$cnt", "$prec.List[0]", "$x + $y", "#if(!$b)n#end#if($b && $x == 1 || $y == 2)c#end",
}

func c14Opts() []velty.Option {
	switch sym.Choice("opts", 4) {
	case 0:
		return nil
	case 1:
		return []velty.Option{velty.CacheSize(0)}
	case 2:
		return []velty.Option{velty.CacheSize(1), velty.EscapeHTML(true)}
	default:
		return []velty.Option{velty.EscapeHTML(true), velty.CacheSize(10)}
	}
}

// C14_errors: texts raising errors, with and without stopping at the first one.
func C14_errors() {
	w := c14World()
	w.opts = c14Opts()
	if sym.Choice("panic", 2) == 1 {
		w.opts = append(w.opts, velty.PanicOnError(true))
	}
	t := choose("text", "a$fail($x)b", "#if($x > 0)$fail($x)#end<$y>", "#foreach($e in $xs)$e#if($e > $y)$fail($e)#end;#end", "#set($z = $fail($x))$z.", "#evaluate($h)$fail($x)$s", "$fail($x)$fail($y)")
	host := c14Hosts[sym.Choice("host", len(c14Hosts)-2)]
	w.extra = []kv{v("tpl", t)}
	want, ok := w.render(c14Fill(host, t))
	sym.Assert(ok, "inline text compiles: "+t)
	failed := w.failed
	out, ok := w.render(c14Fill(host, "#evaluate($tpl)"))
	sym.Assert(ok, "evaluation compiles")
	sym.Assert(w.failed == failed, "the evaluation fails as the inline text does: "+t)
	sym.Assert(out == want, "the evaluated text stops where the inline text does: "+t+" in "+host)
	sym.Reach("end")
}

// c14Hosts are the positions of an evaluation; X stands for the evaluation or the inline text.
var c14Hosts = []string{
	"X", "<X|X>", "#if($b)X#end", "#if($b)no#{else}X#end", "#foreach($e1 in $xs)X;#end", "#for($j = 0; $j < 2; $j++)X;#end",
	"#set($x = $x + 1)#set($s = $s + \"k\")X", "#set($w = $x)X", "#foreach($s in $strs)X;#end", "#if($b)#set($y = 3)#end#foreach($e1 in $xs)#set($x = $e1)X;#end", "X#set($z = 1)#set($u = 2)",
}

func c14Fill(host, x string) string {
	r := ""
	for i := 0; i < len(host); i++ {
		if host[i] == 'X' {
			r += x
		} else {
			r += host[i : i+1]
		}
	}
	return r
}

// C14_inline: every text in every position renders as if it were inline, from every kind of source.
func C14_inline() {
	w := c14World()
	w.opts = c14Opts()
	host := sym.Choice("host", len(c14Hosts))
	t := c14Texts[sym.Choice("text", len(c14Texts))]
	src := (host + len(t)) % 6
	if sym.Thorough() {
		src = sym.Choice("src", 6)
	}
	w.rec.Tpl, w.prec.Tpl, w.prec.In.Tpl = t, t, t
	w.extra = []kv{v("tpl", t)}
	ev := []string{"#evaluate($tpl)", "#evaluate(${tpl})", "#evaluate($rec.Tpl)", "#evaluate($prec.In.Tpl)", "#evaluate($prec.Text())", "#evaluate(${prec.Tpl})"}[src]
	// assignments of the text do not leave it: it is inlined once per position only when it does not assign
	inline, ok := w.render(c14Fill(c14Hosts[host], t))
	assigns := false
	for i := 0; i+4 < len(t); i++ {
		if t[i:i+4] == "#set" || t[i:i+4] == "#for" {
			assigns = true
		}
	}
	if assigns && host != 0 && host != 2 && host != 3 && host != 6 && host != 7 && host != 10 {
		sym.Reach("skipped")
		return
	}
	if !ok {
		sym.Reach("skipped")
		return
	}
	out, ok := w.render(c14Fill(c14Hosts[host], ev))
	sym.Assert(ok, "evaluation compiles")
	sym.Assert(!w.failed, "evaluation executes")
	sym.Assert(out == inline, "the evaluated text renders as it would inline: "+t+" in "+c14Hosts[host])
	sym.Reach("end")
}

// C14_bytes: arbitrary texts.
func C14_bytes() {
	t := sym.StrOf("t", 1, sym.N(4, 5), "$x{}#<.!")
	w := &c14W{x: 1, s: "s<", rec: c14Rec{In: &c14In{}}, prec: &c14Rec{In: &c14In{}}}
	if sym.Choice("esc", 2) == 1 {
		w.opts = []velty.Option{velty.EscapeHTML(true)}
	}
	inline, ok := w.render(t)
	if !ok {
		return
	}
	w.extra = []kv{v("tpl", t)}
	out, ok := w.render("#evaluate($tpl)")
	sym.Assert(ok && !w.failed, "evaluation compiles and executes")
	sym.Assert(out == inline, "the evaluated text renders as it would inline")
	sym.Reach("end")
}

var c14Seq = []string{"<$x>", "#set($x = $x + 1)$x", "$s$x", "#foreach($e in $xs)$e$x#end", "$x", "", "#if($b)$x#{else}$s#end", "#set($n = $x)$n$s"}

// C14_sequence: a sequence of texts evaluated at one place by one plan, at every cache size and twice over.
func C14_sequence() {
	size := sym.Choice("cache", 5)
	k := sym.N(4, 6)
	x, s, b := sym.Int("x"), sym.Str("s", 1), sym.Bool("b")
	xs := []int{1, 2}
	texts := make([]string, k)
	for i := range texts {
		n := 4
		if i > 1 {
			n = 3
		}
		texts[i] = c14Seq[(sym.Choice("t"+strconv.Itoa(i), n)*(1+i%2)+i)%len(c14Seq)]
	}
	p := velty.New(velty.CacheSize([]int{0, 1, 2, 3, 100}[size]))
	vars := []kv{v("x", x), v("s", s), v("b", b), v("xs", xs), v("texts", texts)}
	for _, d := range vars {
		sym.Assert(p.DefineVariable(d.name, d.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte("#foreach($t in $texts)#set($x = $x + 10)#evaluate($t)/#end"))
	sym.Assert(err == nil, "template compiles")
	run := func(x int) {
		st := ns()
		set(st, v("x", x), v("s", s), v("b", b), v("xs", xs), v("texts", texts))
		sym.Assert(ex.Exec(st) == nil, "template executes")
		want := ""
		for _, t := range texts {
			x += 10
			sx := strconv.Itoa(x)
			switch t {
			case c14Seq[0]:
				want += "<" + sx + ">"
			case c14Seq[1]:
				want += strconv.Itoa(x + 1)
			case c14Seq[2]:
				want += s + sx
			case c14Seq[3]:
				want += "1" + sx + "2" + sx
			case c14Seq[4]:
				want += sx
			case c14Seq[5]:
			case c14Seq[6]:
				if b {
					want += sx
				} else {
					want += s
				}
			case c14Seq[7]:
				want += sx + s
			}
			want += "/"
		}
		sym.Assert(st.Buffer.String() == want, "evaluations do not depend on what was evaluated before")
	}
	run(x)
	run(x + 1)
	sym.Reach("end")
}

// C14_scope: one text evaluated where its references mean different things, by one plan with one cache.
func C14_scope() {
	t := []string{"<$e>", "${e}", "#set($e = $e)$e", "#if($e == $e)$e#end"}[sym.Choice("text", 4)]
	a := []string{
		"#foreach($e in $xs)X;#end#foreach($e in $strs)X;#end",
		"#foreach($e in $strs)X;#end#foreach($e in $xs)X;#end",
		"#foreach($e in $xs)X;#foreach($e in $strs)X;#end#end",
		"X#foreach($e in $strs)X;#end",
		"X#set($e = 1)X",
		"#set($e = $x)X#set($e = $y)X",
		"#if($b)#foreach($e in $xs)X#end#{else}#foreach($e in $strs)X#end#end",
	}
	host := a[sym.Choice("host", len(a))]
	w := c14World()
	if sym.Choice("cache", 2) == 1 {
		w.opts = []velty.Option{velty.CacheSize(1)}
	}
	inline, ok := w.render(c14Fill(host, t))
	if !ok {
		sym.Reach("skipped")
		return
	}
	w.extra = []kv{v("tpl", t)}
	out, ok := w.render(c14Fill(host, "#evaluate($tpl)"))
	sym.Assert(ok && !w.failed, "evaluation compiles and executes")
	sym.Assert(out == inline, "references mean what they mean where the text is evaluated: "+t+" in "+host)
	sym.Reach("end")
}

// C14_nested: evaluation inside evaluated text.
func C14_nested() {
	w := c14World()
	w.opts = c14Opts()
	depth := 2 + sym.Choice("depth", 2)
	leaf := c14Texts[sym.Choice("leaf", 15)]
	mid := choose("mid", "X", "[X]", "#if($b)X#{else}-#end", "#foreach($v in $xs)X$v#end", "#set($v = $x)X$v")
	w.extra = []kv{v("t0", leaf)}
	inline := leaf
	for i := 1; i < depth; i++ {
		own := "" // variables of every depth have their own names
		for j := 0; j < len(mid); j++ {
			if own += mid[j : j+1]; mid[j] == '$' && mid[j+1] == 'v' {
				own += "d" + strconv.Itoa(i)
			}
		}
		w.extra = append(w.extra, v("t"+strconv.Itoa(i), c14Fill(own, "#evaluate($t"+strconv.Itoa(i-1)+")")))
		inline = c14Fill(own, inline)
	}
	want, ok := w.render(inline)
	sym.Assert(ok, "inline text compiles: "+inline)
	out, ok := w.render("#evaluate($t" + strconv.Itoa(depth-1) + ")")
	sym.Assert(ok && !w.failed, "evaluation compiles and executes")
	sym.Assert(out == want, "nested evaluation renders as inline text: "+inline)
	sym.Reach("end")
}
