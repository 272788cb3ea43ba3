package main

import (
	"errors"
	"strconv"
	"strings"

	"github.com/viant/velty"

	"veltyverif/sym"
)

func c11Cmp(op string, a, b int) bool {
	switch op {
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	case "==":
		return a == b
	default:
		return a != b
	}
}

type c11Rec struct {
	P  byte
	I  int
	L  int
	St int
	In *c11Rec
	Q  byte
}

// C11_loop: every comparison with every post operation; start, limit and step are arbitrary.
func C11_loop() {
	op := choose("cmp", "<", "<=", ">", ">=", "==", "!=")
	posts := []string{"++", "--", " += $st", " -= $st", " *= $st", " = $i + $st", " += 2", " -= 3", " /= 2", " = $st - $i", "+=$st", " *= 2"}
	post := sym.Choice("post", len(posts))
	from, lim, st := sym.Int("from"), sym.Int("lim"), sym.Int("st")
	max := sym.N(2, 4)
	step := func(i int) int {
		switch post {
		case 0:
			return i + 1
		case 1:
			return i - 1
		case 2, 5, 10:
			return i + st
		case 3:
			return i - st
		case 4:
			return i * st
		case 6:
			return i + 2
		case 7:
			return i - 3
		case 8:
			return i / 2
		case 9:
			return st - i
		default:
			return i * 2
		}
	}
	want := ""
	i := from
	n := 0
	for c11Cmp(op, i, lim) {
		sym.Assume(n < max)
		want += "[" + strconv.Itoa(i) + "]"
		i = step(i)
		n++
	}
	body := "[$i]"
	if sym.Choice("body", 2) == 1 { // nothing to render
		body, want = "", ""
	}
	tpl := "#for($i = $from; $i " + op + " $lim; $i" + posts[post] + ")" + body + "#end|$i,$from,$lim,$st"
	want += "|" + strconv.Itoa(i) + "," + strconv.Itoa(from) + "," + strconv.Itoa(lim) + "," + strconv.Itoa(st)
	sym.Assert(render(tpl, v("from", from), v("lim", lim), v("st", st)) == want, "the loop "+tpl)
	sym.Reach("end")
}

// C11_places: start, limit, step and loop variable in every kind of place.
func C11_places() {
	from, lim, st := sym.Int("from"), sym.Int("lim"), sym.Int("st")
	sym.Assume(st > 0 && st < 1000000 && from > -1000000 && lim < 1000000)
	max := sym.N(3, 5)
	r := &c11Rec{P: 1, I: 77, L: lim, St: st, In: &c11Rec{P: 2, I: from, L: lim, St: st, Q: 3}, Q: 4}
	lv := choose("loopvar", "$i", "$e", "$r.I", "$r.In.I")
	start := choose("start", "$from", "$r.In.I", "$xs[1]")
	limit := choose("limit", "$lim", "$r.L", "$r.In.L", "$r.GetL()")
	stp := choose("step", "$st", "$v.St")
	form := sym.Choice("form", 4)
	cond := lv + " < " + limit
	if form == 1 {
		cond = limit + " > " + lv
	} else if form == 2 {
		cond = "!(" + lv + " >= " + limit + ") && $on"
	}
	body := "[" + lv + "]"
	if form == 3 {
		body = ""
	}
	tpl := "#for(" + lv + " = " + start + "; " + cond + "; " + lv + " += " + stp + ")" + body + "#end" + lv
	want := ""
	i := from
	n := 0
	for i < lim {
		sym.Assume(n < max)
		want += "[" + strconv.Itoa(i) + "]"
		i += st
		n++
	}
	if form == 3 {
		want = ""
	}
	want += strconv.Itoa(i)
	out := render(tpl, v("from", from), v("lim", lim), v("st", st), v("r", r), v("v", *r), v("xs", []int{5, from, 6}), v("e", 9), v("on", true))
	sym.Assert(out == want, "the loop "+tpl)
	if lv == "$r.I" {
		sym.Assert(r.I == i && r.In.I == from, "the loop variable has its final value")
	} else if lv == "$r.In.I" {
		sym.Assert(r.I == 77 && r.In.I == i, "the loop variable has its final value")
	} else {
		sym.Assert(r.I == 77 && r.In.I == from, "other fields are unchanged")
	}
	sym.Assert(r.P == 1 && r.Q == 4 && r.In.P == 2 && r.In.Q == 3 && r.L == lim && r.In.L == lim, "other fields are unchanged")
	sym.Reach("end")
}

func (r *c11Rec) GetL() int { return r.L }

// C11_kinds: loops over other kinds of values.
func C11_kinds() {
	max := sym.N(3, 5)
	switch sym.Choice("case", 4) {
	case 0: // float loop variable
		f, l := sym.Float64("f"), sym.Float64("l")
		want, x, n := "", f, 0
		for x < l {
			sym.Assume(n < max)
			want += "(" + strconv.FormatFloat(x, 'f', -1, 64) + ")"
			x += 1
			n++
		}
		out := render("#for($x = $f; $x < $l; $x += 1.0)($x)#end$x", v("f", f), v("l", l))
		sym.Assert(out == want+strconv.FormatFloat(x, 'f', -1, 64), "float loop variable")
	case 1: // string loop variable
		s := sym.Str("s", 2)
		want, x, n := "", "", 0
		for x != s {
			sym.Assume(n < max)
			want += "(" + x + ")"
			x += "a"
			n++
		}
		out := render("#for($x = \"\"; $x != $s; $x += \"a\")($x)#end$x", v("s", s))
		sym.Assert(out == want+x, "string loop variable")
	case 2: // condition is a variable the body changes
		k := sym.IntIn("k", 0, max)
		n := 0
		on := sym.Bool("on")
		want := ""
		for b := on; b; n++ {
			want += "(" + strconv.Itoa(n) + ")"
			if n >= k {
				b = false
			}
		}
		out := render("#for($i = 0; $on; $i++)($i)#if($i >= $k)#set($on = false)#end#end$i$on", v("on", on), v("k", k))
		sym.Assert(out == want+strconv.Itoa(n)+"false", "condition is a variable the body changes")
	default: // the body changes the loop variable and the limit
		l := sym.IntIn("l", -2, max)
		want := ""
		lim := l
		i := 0
		for ; i < lim; i++ {
			want += "(" + strconv.Itoa(i) + ")"
			if i == 1 {
				i = i + 1
				lim = lim + 1
			}
		}
		out := render("#for($i = 0; $i < $l; $i++)($i)#if($i == 1)#set($i = $i + 1)#set($l = $l + 1)#end#end$i,$l", v("l", l))
		sym.Assert(out == want+strconv.Itoa(i)+","+strconv.Itoa(lim), "body changes the loop variable and the limit")
	}
	sym.Reach("end")
}

// C11_order: init once, then condition, body, post.
func C11_order() {
	k := sym.IntIn("k", 0, sym.N(3, 5))
	var tr string
	n := 0
	add := func(c string) { tr += c }
	w := &c11Tr{add: add, k: k, n: &n}
	body, c := "$w.Body($i)", "cbp"
	if sym.Choice("body", 2) == 1 {
		body, c = "", "cp"
	}
	out := render("#for($i = $w.Init(); $w.Cond($i); $i += $w.Post())"+body+"#end", v("w", w))
	want, wo := "i", ""
	for j := 0; j < k; j++ {
		want += c
		if body != "" {
			wo += strconv.Itoa(j)
		}
	}
	want += "c"
	sym.Assert(tr == want, "init once, then condition, body and post in order")
	sym.Assert(out == wo, "the body sees the value")
	sym.Reach("end")
}

type c11Tr struct {
	add func(string)
	k   int
	n   *int
}

func (w *c11Tr) Init() int       { w.add("i"); return 0 }
func (w *c11Tr) Cond(i int) bool { w.add("c"); return i < w.k }
func (w *c11Tr) Post() int       { w.add("p"); return 1 }
func (w *c11Tr) Body(i int) int  { w.add("b"); return i }

// C11_body: variables assigned in the body have their final values afterwards.
func C11_body() {
	n := sym.IntIn("n", 0, sym.N(3, 5))
	x := sym.Int("x")
	r := &c11Rec{P: 1, I: sym.Int("ri"), Q: 2}
	sum, prod, last, ri := 0, x, 0, r.I
	cnt := 0
	for i := 0; i < n; i++ {
		cnt++
		sum += i
		prod = prod*3 + i
		last = prod - sum
		ri -= prod
	}
	cp := "#set($sum = $sum + $i)#set($p = $p * 3 + $i)#set($last = $p - $sum)#set($r.I = $r.I - $p)"
	pre := "#set($last = 0)"
	switch sym.Choice("nest", 3) {
	case 0:
		cp = pre + "#for($i = 0; $i < $n; $i++)" + cp + "#end"
	case 1:
		cp = pre + "#if(true)#for($i = 0; $i < $n; $i++)#if(true)" + cp + "#end#end#end"
	default:
		cp = pre + "#foreach($q in [0...1])#for($i = 0; $i < $n; $i++)#foreach($z in [5...6])" + cp + "#end#end#end"
	}
	out := render(cp+"$sum,$p,$last,$i", v("n", n), v("sum", 0), v("p", x), v("r", r))
	sym.Assert(out == strconv.Itoa(sum)+","+strconv.Itoa(prod)+","+strconv.Itoa(last)+","+strconv.Itoa(cnt), "final values")
	sym.Assert(r.I == ri && r.P == 1 && r.Q == 2, "fields assigned in the body")
	sym.Reach("end")
}

// C11_nest: nested loops run the inner loop completely for each outer iteration.
func C11_nest() {
	a, b := sym.IntIn("a", 0, sym.N(2, 3)), sym.IntIn("b", 0, sym.N(2, 3))
	want := ""
	switch sym.Choice("case", 4) {
	case 0:
		for i := 0; i < a; i++ {
			want += "{"
			for j := b; j > 0; j-- {
				want += strconv.Itoa(i) + ":" + strconv.Itoa(j) + ","
			}
			want += "}"
		}
		sym.Assert(render("#for($i = 0; $i < $a; $i++){#for($j = $b; $j > 0; $j--)$i:$j,#end}#end", v("a", a), v("b", b)) == want, "nested loops")
	case 1: // inner limit depends on the outer variable
		for i := 0; i <= a; i++ {
			for j := 0; j < i; j++ {
				want += strconv.Itoa(i) + strconv.Itoa(j) + " "
			}
		}
		sym.Assert(render("#for($i = 0; $i <= $a; $i++)#for($j = 0; $j < $i; $j++)$i$j #end#end", v("a", a)) == want, "dependent limits")
	case 2: // one loop after the other, same variable
		for i := 0; i < a; i++ {
			want += strconv.Itoa(i)
		}
		want += "|"
		for i := b; i > 0; i-- {
			want += strconv.Itoa(i)
		}
		sym.Assert(render("#for($i = 0; $i < $a; $i++)$i#end|#for($i = $b; $i > 0; $i--)$i#end", v("a", a), v("b", b)) == want, "consecutive loops")
	default: // three levels
		for i := 0; i < a; i++ {
			for j := 0; j < b; j++ {
				for k := 0; k < 2; k++ {
					want += strconv.Itoa(i) + strconv.Itoa(j) + strconv.Itoa(k) + ";"
				}
			}
		}
		sym.Assert(render("#for($i=0;$i<$a;$i++)#for($j=0;$j<$b;$j++)#for($k=0;$k<2;$k++)$i$j$k;#end#end#end", v("a", a), v("b", b)) == want, "three levels")
	}
	sym.Reach("end")
}

// C11_fail: a call that fails in the body does not end the loop.
func C11_fail() {
	n, bad, worse := sym.ConcreteInt(sym.IntIn("n", 0, sym.N(3, 5))), sym.Int("bad"), sym.Int("worse")
	calls := 0
	p := velty.New()
	for _, x := range []kv{v("n", 0), v("t", true), v("xs", []int{1})} {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	sym.Assert(p.RegisterFunction("f", func(i int) (int, error) {
		calls++
		if i == bad || i == worse {
			return 5, errors.New("failed")
		}
		return 5, nil
	}) == nil, "function registers")
	body := choose("body", "$f($i)", "#set($y = $f($i))", "#if($f($i) == 5)#end", "#if($t)$f($i)#end", "#foreach($e in $xs)$f($i)#end", "#for($j = 0; $j < 1; $j++)$f($i)#end")
	ex, ns, err := p.Compile([]byte("#for($i = 0; $i < $n; $i++)[" + body + "]#set($last = $i)#end$last,$i"))
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, v("n", n), v("t", true), v("xs", []int{1}))
	err = ex.Exec(st)
	failed, last := false, 0
	for i := 0; i < n; i++ {
		failed = failed || i == bad || i == worse
		last = i
	}
	sym.Assert((err != nil) == failed, "the failure is reported")
	sym.Assert(calls == n, "the body runs as often as the condition holds")
	out := st.Buffer.String()
	tail := strconv.Itoa(last) + "," + strconv.Itoa(n)
	sym.Assert(len(out) >= len(tail) && out[len(out)-len(tail):] == tail, "the loop variable has its final value")
	sym.Assert(strings.Count(out, "[") == n && strings.Count(out, "]") == n, "the body is rendered as often as the condition holds")
	sym.Reach("end")
}
