package main

import (
	"encoding/json"
	"errors"
	"html"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

// The harnesses of this file repeat properties at sizes beyond those which the others reach with fully symbolic
// inputs: the size is one of scaleSizes, most of the input is fixed, and what is symbolic sits at a symbolic place.

var scaleSizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 70, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5000, 10000}

// size is one of the sizes from min up to the bound of the tier.
func size(name string, min, quick, thorough int) int {
	xs := []int{}
	for _, x := range scaleSizes {
		if x >= min && x <= sym.N(quick, thorough) {
			xs = append(xs, x)
		}
	}
	return xs[sym.Choice(name, len(xs))]
}

// at is one of a few places in [0, n).
func at(name string, n int) int {
	xs := []int{0}
	for _, x := range []int{1, n / 2, n - 2, n - 1} {
		if x > xs[len(xs)-1] && x < n {
			xs = append(xs, x)
		}
	}
	return xs[sym.Choice(name, len(xs))]
}

// C10_long: a chain of many branches.
func C10_long() {
	n := size("n", 1, 100, 300)
	x := sym.Int("x")
	k := at("at", n)
	tpl, want := "", "-"
	for j := 0; j < n; j++ {
		if j == 0 {
			tpl += "#if("
		} else {
			tpl += "#elseif("
		}
		cond := "$x == " + strconv.Itoa(j)
		if j == k { // a condition that covers all later ones
			cond = "$x >= " + strconv.Itoa(j)
		}
		tpl += cond + ")b" + strconv.Itoa(j)
	}
	if sym.Choice("else", 2) == 1 {
		tpl += "#{else}e"
		want = "e-"
	}
	tpl += "#end-"
	switch {
	case x >= k:
		want = "b" + strconv.Itoa(k) + "-"
	case x >= 0:
		for j := 0; j < k; j++ {
			if x == j {
				want = "b" + strconv.Itoa(j) + "-"
				break
			}
		}
	}
	sym.Assert(render(tpl, v("x", x)) == want, "exactly the first true branch of a long chain runs")
	sym.Reach("end")
}

// C10_deep: conditionals in conditionals.
func C10_deep() {
	n := size("n", 1, 65, 129)
	k := at("at", n)
	c := sym.Bool("c")
	tpl, want := "", ""
	for j := 0; j < n; j++ {
		switch cond := "$t"; {
		case j == k:
			tpl += "#if($c)" + strconv.Itoa(j) + ";"
		case sym.And(j%3 == 1, true):
			tpl += "#if(!$t)no#{else}" + strconv.Itoa(j) + ";"
		default:
			tpl += "#if(" + cond + ")" + strconv.Itoa(j) + ";"
		}
	}
	for j := n - 1; j >= 0; j-- {
		tpl += "/" + strconv.Itoa(j) + "#end"
	}
	for j := 0; j < n; j++ {
		if j == k && !c {
			break
		}
		want += strconv.Itoa(j) + ";"
	}
	for j := n - 1; j >= 0; j-- {
		if j >= k && !c {
			continue
		}
		want += "/" + strconv.Itoa(j)
	}
	sym.Assert(render(tpl, v("t", true), v("c", c)) == want, "nested conditionals")
	sym.Reach("end")
}

// scaleText is a text of n fixed bytes followed by a symbolic one, and m more.
func scaleText(fill string, n int, s string, m int) string {
	return scaleFill(fill, n) + s + scaleFill(fill, m)
}

func scaleFill(fill string, n int) string {
	if n == 0 {
		return ""
	}
	return strings.Repeat(fill, n/len(fill)+1)[:n]
}

// C03_length: texts of many lengths with the characters to be escaped at any end.
func C03_length() {
	esc := sym.Choice("esc", 2) == 1
	s := sym.Str("s", sym.N(1, 2))
	n := size("n", 0, 5000, 10000)
	m := n
	if sym.Choice("after", 2) == 1 {
		n = 0
	} else if n > 0 {
		m = 1
	}
	fill := choose("fill", "abc d", "<", "a&")
	x := scaleText(fill, n, s, m)
	want := x
	if esc {
		want = html.EscapeString(x)
	}
	src := choose("src", "$s", "${rec.S}", "$i", "${echo($s)}")
	out := c03Run(esc, "<"+src+">", v("s", x), v("rec", c03Rec{S: x}), v("i", interface{}(x)))
	sym.Assert(out == "<"+want+">", "text of any length is escaped as html.EscapeString does: "+src)
	sym.Reach("end")
}

// C02_length: texts of many lengths render unchanged, whatever the initial size of the buffer.
func C02_length() {
	s := sym.Str("s", sym.N(1, 2))
	n := size("n", 0, 5000, 10000)
	x := scaleText("a<b &", n, s, n/2)
	buf := []int{0, 1, 64, 1024}[sym.Choice("buf", 4)]
	k := sym.Int("k")
	form := sym.Choice("form", 4)
	tpl := []string{"$k$s$k", "#foreach($q in [0...2])$s$k#end", "#set($z = $s)$z$k", "${r.S}$k"}[form]
	want := []string{strconv.Itoa(k) + x + strconv.Itoa(k), x + strconv.Itoa(k) + x + strconv.Itoa(k), x + strconv.Itoa(k), x + strconv.Itoa(k)}[form]
	vars := []kv{v("s", x), v("k", k), v("r", c03Rec{S: x})}
	ex, ns := plan(tpl, []velty.Option{velty.BufferSize(buf)}, vars...)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == want, "text of any length")
	sym.Reach("end")
}

// C01_length: literal text of many lengths before, between and after references.
func C01_length() {
	s := sym.StrOf("s", 1, sym.N(2, 3), "a$#{ <\n")
	n := size("n", 0, 4097, 10000)
	m := size("m", 0, 7, 65)
	c := sym.Choice("form", 3)
	x := scaleFill("lit. \n<", n) + "."
	y := "." + scaleFill("xyz", m)
	if !(s[0] == 'a' || s[0] == ' ' || s[0] == '<' || s[0] == '\n') {
		sym.Assume(false) // an opening that may belong to a reference is C01_resemble's
	}
	for i := 1; i < len(s); i++ {
		if sym.Or(sym.Or(s[i] == '$', s[i] == '#'), s[i] == '{') {
			sym.Assume(false)
		}
	}
	k := sym.Int("k")
	var tpl, want string
	switch c {
	case 0:
		tpl, want = x+s+y, x+s+y
	case 1:
		tpl, want = x+s+"${k}"+y+x, x+s+strconv.Itoa(k)+y+x
	default:
		tpl, want = "#if($t)"+x+"#end"+s+y+"${k}", x+s+y+strconv.Itoa(k)
	}
	sym.Assert(render(tpl, v("k", k), v("t", true)) == want, "literal text of any length")
	sym.Reach("end")
}

// C01_count: many literals and references in a row.
func C01_count() {
	n := size("n", 1, 300, 1025)
	k := sym.Int("k")
	j0 := at("at", n)
	tpl, want := "", ""
	for j := 0; j < n; j++ {
		tpl += "l" + strconv.Itoa(j) + " "
		want += "l" + strconv.Itoa(j) + " "
		if j == j0 {
			tpl += "${k}"
			want += strconv.Itoa(k)
		} else if j%2 == 0 {
			tpl += "${c}"
			want += "7"
		} else {
			tpl += "#if($t)x#end"
			want += "x"
		}
	}
	sym.Assert(render(tpl, v("k", k), v("c", 7), v("t", true)) == want, "all statements of a long template are rendered")
	sym.Reach("end")
}

// C13_count: many statements in the blocks.
func C13_count() {
	n := size("n", 1, 257, 600)
	x := sym.Int("x")
	c := sym.Bool("c")
	body, val := "", x
	where := sym.Choice("where", 5)
	j0 := at("at", n)
	vals := []int{}
	for j := 0; j < n; j++ {
		if j == j0 {
			body += "#if($c)#set($x = $x + 100)#end"
			if c {
				val += 100
			}
		} else if j%3 == 0 {
			body += "#set($x = $x + 1)"
			val++
		} else if j%3 == 1 {
			body += "$x,"
			vals = append(vals, val)
		} else {
			body += "#foreach($e in [0...2])#set($x = $x + $e)#end"
			val++
		}
	}
	w := ""
	for _, a := range vals {
		w += strconv.Itoa(a) + ","
	}
	tpl := []string{body, "#if($t)" + body + "#end", "#if(!$t)no#{else}" + body + "#end", "#foreach($o in [0...1])" + body + "#end", "#for($o = 0; $o < 1; $o++)" + body + "#end"}[where]
	sym.Assert(render(tpl+"$x", v("x", x), v("t", true), v("c", c)) == w+strconv.Itoa(val), "every statement of a block is executed in order")
	sym.Reach("end")
}

// C12_count: many elements.
func C12_count() {
	n := size("n", 0, 1025, 5000)
	x := sym.Int("x")
	j0 := 0
	if n > 0 {
		j0 = at("at", n)
	}
	kind := sym.Choice("kind", 6)
	var xs interface{}
	var is []int
	var rs []c03Rec
	var ps []*c03Rec
	var as []interface{}
	var ss []string
	want := ""
	for j := 0; j < n; j++ {
		a := j
		if j == j0 {
			a = x
		}
		is, rs, ps, as, ss = append(is, a), append(rs, c03Rec{N: a}), append(ps, &c03Rec{N: a}), append(as, a), append(ss, strconv.Itoa(a))
		want += strconv.Itoa(a) + ":" + strconv.Itoa(j) + ","
	}
	body := "$e:$foreach.index,"
	switch kind {
	case 0:
		xs = is
	case 1:
		xs, body = rs, "$e.N:$foreach.index,"
	case 2:
		xs, body = ps, "$e.N:$foreach.index,"
	case 3:
		xs = as
	case 4:
		xs = ss
	default:
		xs = is
	}
	_ = body
	tpl := "#set($n = 0)#foreach($e in $xs)" + strings.Replace(body, "$foreach.index", "$n", 1) + "#set($n = $n + 1)#end"
	if kind == 5 {
		tpl = "#set($n = 0)#foreach($e in $xs)#foreach($e2 in [1...2])$e:$n,#end#set($n = $n + 1)#end"
	}
	sym.Assert(render(tpl, v("xs", xs)) == want, "every element is visited once, in order")
	sym.Reach("end")
}

// C12_span: long ranges.
func C12_span() {
	n := size("n", 1, 1025, 5000)
	lo := []int{0, 1, -3, 98}[sym.Choice("lo", 4)]
	hi := lo + n
	x := sym.Int("x")
	want := ""
	for j := lo; j < hi; j++ {
		want += strconv.Itoa(j) + ","
	}
	sym.Assert(render("#foreach($e in ["+strconv.Itoa(lo)+"..."+strconv.Itoa(hi)+"])$e,#end$x", v("x", x)) == want+strconv.Itoa(x), "a range of any length")
	sym.Reach("end")
}

// C11_count: many iterations.
func C11_count() {
	n := size("n", 0, 1025, 5000)
	x := sym.Int("x")
	form := sym.Choice("form", 4)
	tpl := []string{"#for($k = 0; $k < $n; $k++)$k,#end$x", "#for($k = $n; $k > 0; $k--)$k,#end$x", "#for($k = 0; $k < $n; $k++)#for($l = 0; $l < 1; $l++)$k,#end#end$x", "#for($k = 0; $k < $r.N; $k++)#if($k >= 0)$k,#end#end$x"}[form]
	want := ""
	for j := 0; j < n; j++ {
		if form == 1 {
			want += strconv.Itoa(n-j) + ","
		} else {
			want += strconv.Itoa(j) + ","
		}
	}
	sym.Assert(render(tpl, v("n", n), v("x", x), v("r", c03Rec{N: n})) == want+strconv.Itoa(x), "as many iterations as the condition holds for")
	sym.Reach("end")
}

// C31_length: comments and raw blocks of many lengths.
func C31_length() {
	n := size("n", 0, 4097, 10000)
	s := sym.Str("s", sym.N(2, 3))
	k := sym.Int("k")
	form := sym.Choice("form", 3)
	body := scaleFill("comm $k #if ", n) + "." + c31Line(s)
	var tpl, want string
	switch form {
	case 0:
		tpl, want = "a##"+body+"\nb$k", "ab"+strconv.Itoa(k)
	case 1:
		tpl, want = "a\n##"+body+"\n##"+body+"\nb$k", "a\nb"+strconv.Itoa(k)
	default:
		tpl, want = "a#["+"["+body+".]]#b$k", "a"+body+".b"+strconv.Itoa(k)
	}
	sym.Assert(render(tpl, v("k", k)) == want, "comments of any length vanish and raw blocks of any length are emitted")
	sym.Reach("end")
}

// C35_length: string literals of many lengths.
func C35_length() {
	n := size("n", 0, 2049, 10000)
	s := sym.StrOf("s", 0, sym.N(2, 3), "a $<'")
	k := sym.Int("k")
	x := scaleFill("lit <x> ", n) + s
	form := sym.Choice("form", 4)
	sym.Assume(!strings.Contains(s, "$"))
	tpl := []string{"#set($z = \"" + x + "\")$z$k", "#if($s == \"" + x + "\")y#{else}n#end$k", "$echo(\"" + x + "\")$k", "#set($z = \"" + x + "\" + $t)$z$k"}[form]
	p := velty.New()
	sym.Assert(p.RegisterFunction("echo", func(s string) string { return s }) == nil, "registers")
	vars := []kv{v("s", x), v("k", k), v("t", "!")}
	for _, a := range vars {
		sym.Assert(p.DefineVariable(a.name, a.val) == nil, "defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == []string{x, "y", x, x + "!"}[form]+strconv.Itoa(k), "a string literal of any length denotes its text")
	sym.Reach("end")
}

// C25_length: long chunks.
func C25_length() {
	s := sym.Str("s", 1)
	n, m := size("n", 0, 4097, 10000), size("m", 0, 65, 1025)
	buf := est.NewBuffer([]int{0, 1, 8, 1024, 4096}[sym.Choice("size", 5)], false)
	x, y := scaleFill("abc", n)+s, s+scaleFill("xy", m)
	k := sym.Int("k")
	buf.AppendString(x)
	buf.AppendInt(k)
	buf.AppendStringWithoutEscaping(y)
	buf.AppendString(s)
	want := x + strconv.Itoa(k) + y + s
	sym.Assert(buf.String() == want, "the output is the concatenation of what was appended")
	if sym.Choice("again", 2) == 1 {
		buf.Reset()
		buf.AppendStringWithoutEscaping(y)
		buf.AppendString(x)
		sym.Assert(buf.String() == y+x, "the output after a reset")
	}
	sym.Reach("end")
}

// C24_names: a variable with many names, a field with many names.
func C24_names() {
	n := size("n", 1, 100, 300)
	k := sym.Int("k")
	names := []string{}
	tpl, want := "$v|", strconv.Itoa(k)+"|"
	for j := 0; j < n; j++ {
		name := "Al" + strconv.Itoa(j)
		names = append(names, name)
		tpl += "${" + name + "}|"
		want += strconv.Itoa(k) + "|"
	}
	set0 := names[at("at", n)]
	tpl += "#set($" + set0 + " = 7)$v|${" + names[0] + "}|${" + names[n-1] + "}$w"
	want += "7|7|77"
	p := velty.New()
	sym.Assert(p.DefineVariable("pad", byte(1)) == nil, "defined")
	sym.Assert(p.DefineVariable("v", 0, names...) == nil, "defined")
	sym.Assert(p.DefineVariable("w", 0) == nil, "defined")
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, v("v", k), v("w", 7))
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == want, "all names of a variable denote it")
	sym.Reach("end")
}

// C27_count: many variables.
func C27_count() {
	n := size("n", 1, 257, 600)
	x, s := sym.Int("x"), sym.Str("s", 1)
	p := velty.New()
	seen := c27See(p)
	j0 := at("at", n)
	name := func(j int) string { return "v" + strconv.Itoa(j) }
	tpl := ""
	vals := []interface{}{}
	for j := 0; j < n; j++ {
		var val interface{}
		switch {
		case j == j0:
			val = x
		case j%4 == 0:
			val = uint8(j)
		case j%4 == 1:
			val = "t" + strconv.Itoa(j)
		case j%4 == 2:
			val = j%8 == 2
		default:
			val = float64(j)
		}
		vals = append(vals, val)
		sym.Assert(p.DefineVariable(name(j), val) == nil, "defined")
		tpl += "$see($" + name(j) + ")"
	}
	sym.Assert(p.DefineVariable("s", s) == nil, "defined")
	ex, ns, err := p.Compile([]byte(tpl + "$see($s)"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	for j := n - 1; j >= 0; j-- {
		set(st, v(name(j), vals[j]))
	}
	set(st, v("s", s))
	sym.Assert(st.SetValue(name(n), 1) != nil, "an undefined variable is an error")
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(len(*seen) == n+1 && (*seen)[n] == interface{}(s), "all values are read")
	for j := range vals {
		sym.Assert((*seen)[j] == vals[j], "variable "+strconv.Itoa(j)+" of "+strconv.Itoa(n))
	}
	sym.Reach("end")
}

// C23_depth: deep nesting of blocks, with one #end too many or too few.
func C23_depth() {
	n := size("n", 1, 100, 257)
	off := sym.Choice("off", 3) - 1
	k := sym.Int("k")
	tpl := ""
	for j := 0; j < n; j++ {
		tpl += []string{"#if($k == $k)", "#foreach($e" + strconv.Itoa(j) + " in [1...2])", "#for($f" + strconv.Itoa(j) + " = 0; $f" + strconv.Itoa(j) + " < 1; $f" + strconv.Itoa(j) + "++)"}[j%3]
	}
	tpl += "$k"
	for j := 0; j < n+off; j++ {
		tpl += "#end"
	}
	sym.Assert(compiles(tpl, v("k", k)) == (off == 0), "blocks of any depth are accepted exactly when balanced")
	if off == 0 {
		sym.Assert(render(tpl, v("k", k)) == strconv.Itoa(k), "blocks of any depth are executed")
	}
	sym.Reach("end")
}

// C08_chain: long expressions.
func C08_chain() {
	n := size("n", 1, 100, 300)
	x := sym.IntIn("x", -1000, 1000)
	j0 := at("at", n+1)
	mix := sym.Choice("mix", 7)
	toks := []tok8{}
	for j := 0; j <= n; j++ {
		if j > 0 {
			op := []string{"+", "-", "+", "*", "-", "+", "-"}[(j+mix*3)%7]
			toks = append(toks, tok8{s: op})
		}
		if j == j0 {
			toks = append(toks, tok8{s: "$x", opd: true, v: val8{i: x}})
		} else if j%2 == 0 {
			toks = append(toks, tok8{s: "$c", opd: true, v: val8{i: 3}})
		} else {
			toks = append(toks, tok8{s: strconv.Itoa(j), opd: true, v: val8{i: j}})
		}
	}
	text := ""
	for _, t := range toks {
		text += t.s + " "
	}
	want := (&eval8{t: toks}).expr(1)
	sym.Assert(render("#set($r = "+text+")$r", v("x", x), v("c", 3)) == strconv.Itoa(want.i), "a long expression: "+text)
	sym.Reach("end")
}

// C08_parens: deep parentheses.
func C08_parens() {
	n := size("n", 1, 65, 129)
	x := sym.IntIn("x", -1000, 1000)
	text, want := "$x", x
	right := sym.Choice("right", 2) == 1
	for j := 0; j < n; j++ {
		if right {
			text = "(" + strconv.Itoa(j) + " - " + text + ")"
			want = j - want
		} else {
			text = "(" + text + " - " + strconv.Itoa(j) + ")"
			want -= j
		}
	}
	sym.Assert(render("#set($r = "+text+" + 1)$r", v("x", x)) == strconv.Itoa(want+1), "deep parentheses: "+text)
	sym.Reach("end")
}

// C08_bools: long chains of conditions.
func C08_bools() {
	n := size("n", 2, 100, 257)
	j0 := at("at", n)
	c := sym.Bool("c")
	op := choose("op", "&&", "||")
	text := ""
	for j := 0; j < n; j++ {
		if j > 0 {
			text += " " + op + " "
		}
		switch {
		case j == j0:
			text += "$c"
		case op == "&&":
			text += "$t"
		default:
			text += "!$t"
		}
	}
	want := "F"
	if c {
		want = "T"
	}
	sym.Assert(render("#if("+text+")T#{else}F#end", v("c", c), v("t", true)) == want, "a long chain of conditions: "+text)
	sym.Reach("end")
}

// C14_count: many different dynamic templates, each rendered again.
func C14_count() {
	n := size("n", 1, 129, 513)
	cs := []int{0, 1, 2, 3, 8, 100}[sym.Choice("cache", 6)]
	x := sym.Int("x")
	p := velty.New(velty.CacheSize(cs))
	sym.Assert(p.DefineVariable("x", 0) == nil, "defined")
	sym.Assert(p.DefineVariable("d", "") == nil, "defined")
	ex, ns, err := p.Compile([]byte("#evaluate($d)"))
	sym.Assert(err == nil, "compiles")
	for round := 0; round < 2; round++ {
		for j := 0; j < n; j++ {
			st := ns()
			set(st, v("x", x), v("d", "<$x "+strconv.Itoa(j)+">#set($x = $x + "+strconv.Itoa(j)+")$x"))
			sym.Assert(ex.Exec(st) == nil, "executes")
			sym.Assert(st.Buffer.String() == "<"+strconv.Itoa(x)+" "+strconv.Itoa(j)+">"+strconv.Itoa(x+j), "a dynamic template is rendered as the inline text")
		}
	}
	sym.Reach("end")
}

// C14_length: long dynamic templates which differ at one place.
func C14_length() {
	n := size("n", 0, 2049, 10000)
	x := sym.Int("x")
	p := velty.New(velty.CacheSize(4))
	sym.Assert(p.DefineVariable("x", 0) == nil, "defined")
	sym.Assert(p.DefineVariable("d", "") == nil, "defined")
	ex, ns, err := p.Compile([]byte("#evaluate($d)"))
	sym.Assert(err == nil, "compiles")
	fill, tail := scaleFill("lit ", n), scaleFill(" tail", n)
	for _, mid := range []string{"a", "b", "$x", "a"} {
		st := ns()
		set(st, v("x", x), v("d", fill+mid+tail))
		want := mid
		if mid == "$x" {
			want = strconv.Itoa(x)
		}
		sym.Assert(ex.Exec(st) == nil, "executes")
		sym.Assert(st.Buffer.String() == fill+want+tail, "long dynamic templates are told apart")
	}
	sym.Reach("end")
}

// C15_count: one state executed many times.
func C15_count() {
	n := size("n", 1, 257, 1025)
	x := sym.Int("x")
	tpl := choose("tpl", "#set($a = $a + $x)$a", "#foreach($e in $xs)$e$x#end", "#evaluate($d)", "$xs$x", "#if($x == $a)e#{else}n#end$r.S")
	vars := func(j int) []kv {
		return []kv{v("x", x+j), v("a", j), v("xs", []int{j, 3}), v("d", "$x"), v("r", c03Rec{S: "s" + strconv.Itoa(j)})}
	}
	ex, ns := plan(tpl, nil, vars(0)...)
	st := ns()
	for j := 0; j < n; j++ {
		set(st, vars(j)...)
		sym.Assert(ex.Exec(st) == nil, "executes")
		k := strconv.Itoa(x + j)
		want := ""
		switch tpl[0:3] {
		case "#se":
			want = strconv.Itoa(j + x + j)
		case "#fo":
			want = strconv.Itoa(j) + k + "3" + k
		case "#ev":
			want = k
		case "$xs":
			want = "[" + strconv.Itoa(j) + ",3]" + k
		default:
			want = "n"
			if x+j == j {
				want = "e"
			}
			want += "s" + strconv.Itoa(j)
		}
		sym.Assert(st.Buffer.String() == want, "the execution "+strconv.Itoa(j)+" of a state: "+tpl)
		st.Reset()
	}
	sym.Reach("end")
}

// C17_count: a pool used many times, with more states out than it holds.
func C17_count() {
	n := size("n", 1, 100, 300)
	p, ex := c17Pool([]int{0, 1, 4, 100}[sym.Choice("size", 4)])
	x := sym.IntIn("x", 0, 1000)
	for round := 0; round < 2; round++ {
		var out []*est.State
		for j := 0; j < n; j++ {
			st := p.State()
			c17Fresh(st)
			for _, o := range out {
				sym.Assert(o != st, "a state in use is not handed out again")
			}
			out = append(out, st)
		}
		for j, st := range out {
			set(st, v("x", x+j))
			sym.Assert(ex.Exec(st) == nil, "executes")
		}
		for j, st := range out {
			sym.Assert(st.Buffer.String() == "<"+strconv.Itoa(x+j)+">", "every state renders its own value")
		}
		for _, st := range out {
			p.Put(st)
		}
	}
	sym.Reach("end")
}

// c16Type is a struct holding a chain of n pointers to structs.
func c16Type(n int) reflect.Type {
	fields := []reflect.StructField{{Name: "P", Type: reflect.TypeOf(byte(0))}, {Name: "N", Type: reflect.TypeOf(0)}}
	t := reflect.StructOf(append(fields, reflect.StructField{Name: "S", Type: reflect.TypeOf("")}))
	for j := 0; j < n; j++ {
		t = reflect.StructOf(append(fields[:2:2], reflect.StructField{Name: "Next", Type: reflect.PtrTo(t)}, reflect.StructField{Name: "S", Type: reflect.TypeOf("")}))
	}
	return t
}

// C16_depth: a nil pointer far down a chain.
func C16_depth() {
	n := size("n", 1, 17, 40)
	k := at("at", n)
	cut := sym.Choice("cut", 2) == 1
	x := sym.Int("x")
	s := sym.Str("s", 1)
	root := reflect.New(c16Type(n))
	last := root.Elem()
	ref := "r"
	for j := 0; j < n; j++ {
		last.FieldByName("N").SetInt(int64(x + j))
		if cut && j == k {
			break
		}
		next := reflect.New(last.FieldByName("Next").Type().Elem())
		last.FieldByName("Next").Set(next)
		last = next.Elem()
	}
	for j := 0; j < n; j++ {
		ref += ".Next"
	}
	want := "<0>|"
	if !cut {
		last.FieldByName("N").SetInt(int64(x + n))
		last.FieldByName("S").SetString(s)
		want = "<" + strconv.Itoa(x+n) + ">" + s + "|"
	}
	r := root.Interface()
	out := render("<${"+ref+".N}>${"+ref+".S}|$r.N", v("r", r))
	sym.Assert(out == want+strconv.Itoa(x), "a nil pointer at any depth")
	if cut {
		sym.Assert(last.FieldByName("Next").IsNil(), "nothing is allocated")
	}
	sym.Reach("end")
}

// C21_count: many failures, one of them at any place.
func C21_count() {
	n := size("n", 1, 257, 1025)
	j0 := at("at", n)
	fails := sym.Bool("fails")
	p := velty.New()
	calls := 0
	sym.Assert(p.RegisterFunction("f", func(i int, b bool) (int, error) {
		calls++
		if b && i == j0 {
			return i, errors.New("failed at " + strconv.Itoa(i))
		}
		return i, nil
	}) == nil, "registers")
	sym.Assert(p.DefineVariable("b", false) == nil, "defined")
	form := sym.Choice("form", 3)
	tpl := ""
	switch form {
	case 0:
		for j := 0; j < n; j++ {
			tpl += "$f(" + strconv.Itoa(j) + ", $b),"
		}
	case 1:
		tpl = "#foreach($e in [0..." + strconv.Itoa(n) + "])$f($e, $b),#end"
	default:
		tpl = "#for($e = 0; $e < " + strconv.Itoa(n) + "; $e++)#if($f($e, $b) >= 0)$e,#end#end"
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, v("b", fails))
	err = ex.Exec(st)
	sym.Assert((err != nil) == fails, "an error at any place surfaces")
	if err != nil {
		sym.Assert(strings.Contains(err.Error(), "failed at "+strconv.Itoa(j0)), "the error says what failed")
	} else {
		want := ""
		for j := 0; j < n; j++ {
			want += strconv.Itoa(j) + ","
		}
		sym.Assert(st.Buffer.String() == want && calls == n, "nothing is skipped")
	}
	sym.Reach("end")
}

// C28_count: big maps.
func C28_count() {
	n := size("n", 1, 200, 600)
	j0 := at("at", n)
	present := sym.Choice("present", 2) == 1
	x := sym.Int("x")
	kind := sym.Choice("kind", 3)
	ms, mi, mf := map[string]int{}, map[int]int{}, map[float64]int{}
	for j := 0; j < n; j++ {
		val := j
		if j == j0 {
			if !present {
				continue
			}
			val = x
		}
		ms["k"+strconv.Itoa(j)], mi[j*7], mf[float64(j)+0.5] = val, val, val
	}
	var m, q interface{}
	switch kind {
	case 0:
		m, q = ms, "k"+strconv.Itoa(j0)
	case 1:
		m, q = mi, j0*7
	default:
		m, q = mf, float64(j0)+0.5
	}
	c28Check(m, q, present, x, "")
}

// C29_count: long slices.
func C29_count() {
	n := size("n", 0, 513, 2049)
	x := sym.Int("x")
	is, ss := make([]int, n), make([]string, n)
	for j := range is {
		is[j], ss[j] = j*3, "s"+strconv.Itoa(j)
	}
	j0 := 0
	if n > 0 {
		j0 = at("at", n)
		is[j0] = x
	}
	want := ""
	for j := n - 1; j >= 0; j-- {
		want += strconv.Itoa(is[j]) + ","
	}
	want += "|"
	for j := range is {
		want += strconv.Itoa(is[j]) + ","
	}
	want += "|" + strconv.Itoa(n) + "|"
	tpl := "#foreach($e in $slices.ReverseInts($is))$e,#end|#foreach($e in $is)$e,#end|$slices.Length($ss)|"
	sym.Assert(render(tpl, v("is", is), v("ss", ss)) == want, "slices of any length")
	sym.Reach("end")
}

// C18_count: long slices indexed.
func C18_count() {
	n := size("n", 1, 1025, 10000)
	x := sym.Int("x")
	is := make([]int, n)
	for j := range is {
		is[j] = j * 3
	}
	j0 := at("at", n)
	is[j0] = x
	idx := []int{j0, n, -1, n + 1}[sym.Choice("idx", 4)]
	ex, ns := plan("<${xs[$k]}>", nil, v("xs", is), v("k", idx))
	st := ns()
	set(st, v("xs", is), v("k", idx))
	failed := func() (failed bool) {
		defer func() {
			if r := recover(); r != nil {
				failed = true
			}
		}()
		return ex.Exec(st) != nil
	}()
	sym.Assert(failed == (idx != j0), "an index outside the slice fails")
	sym.Assert(failed || st.Buffer.String() == "<"+strconv.Itoa(x)+">", "the addressed element")
	sym.Reach("end")
}

// C34_count: long lists and texts.
func C34_count() {
	n := size("n", 0, 257, 1025)
	x := sym.Int("x")
	is := make([]int, n)
	for j := range is {
		is[j] = j
	}
	if n > 0 {
		is[at("at", n)] = x
	}
	b, err := json.Marshal(is)
	sym.Assert(err == nil, "marshals")
	sym.Assert(render("$json.Marshal($is)", v("is", is)) == string(b), "a list of any length")
	sym.Reach("end")
}

// C33_count: composites with many elements.
func C33_count() {
	n := size("n", 0, 257, 1025)
	x := sym.Int("x")
	rs := make([]c03Rec, n)
	for j := range rs {
		rs[j].N = j
	}
	if n > 0 {
		rs[at("at", n)].N = x
	}
	b, err := json.Marshal(rs)
	sym.Assert(err == nil, "marshals")
	sym.Assert(render("<$rs>", v("rs", rs)) == "<"+string(b)+">", "a composite of any length")
	sym.Reach("end")
}

// C19_count: functions with many arguments, variadic ones included.
func C19_count() {
	n := size("n", 0, 65, 257)
	x := sym.Int("x")
	form := sym.Choice("form", 3)
	var got []int
	p := velty.New()
	sym.Assert(p.RegisterFunction("f", func(xs ...int) int { got = append([]int{}, xs...); return len(xs) }) == nil, "registers")
	sym.Assert(p.RegisterFunction("g", func(s string, xs ...string) string { return s + ":" + strings.Join(xs, "+") }) == nil, "registers")
	sym.Assert(p.RegisterFunction("h", func(a, b, c, d, e, f, g, h int) int { return ((((((a*2+b)*2+c)*2+d)*2+e)*2+f)*2+g)*2 + h }) == nil, "registers")
	sym.Assert(p.DefineVariable("x", 0) == nil, "defined")
	j0 := 0
	if n > 0 {
		j0 = at("at", n)
	}
	tpl, want := "", ""
	switch form {
	case 0:
		tpl = "$f("
		want = strconv.Itoa(n)
	case 1:
		tpl = "$g(\"s\", "
		want = "s:"
	default:
		tpl = "$h($x, 1, $x, 2, 3, $x, 4, 5)"
		want = strconv.Itoa(((((((x*2+1)*2+x)*2+2)*2+3)*2+x)*2+4)*2 + 5)
	}
	if form < 2 {
		if n == 0 {
			sym.Assume(false)
		}
		for j := 0; j < n; j++ {
			if j > 0 {
				tpl += ", "
			}
			if form == 1 {
				tpl += "\"a" + strconv.Itoa(j) + "\""
				if j > 0 {
					want += "+"
				}
				want += "a" + strconv.Itoa(j)
			} else if j == j0 {
				tpl += "$x"
			} else {
				tpl += strconv.Itoa(j)
			}
		}
		tpl += ")"
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, v("x", x))
	sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
	sym.Assert(st.Buffer.String() == want, "the result: "+tpl)
	if form == 0 {
		sym.Assert(len(got) == n, "all arguments are received")
		for j := range got {
			if j == j0 {
				sym.Assert(got[j] == x, "the argument")
			} else {
				sym.Assert(got[j] == j, "the argument")
			}
		}
	}
	sym.Reach("end")
}

// C09_count: many variables defined by assignments.
func C09_count() {
	n := size("n", 1, 257, 600)
	x := sym.Int("x")
	j0 := at("at", n)
	tpl, want := "", ""
	for j := 0; j < n; j++ {
		val, w := strconv.Itoa(j), strconv.Itoa(j)
		if j == j0 {
			val, w = "$x", strconv.Itoa(x)
		} else if j%3 == 0 {
			val, w = "\"t"+w+"\"", "t"+w
		} else if j%3 == 1 {
			val, w = w+".5", w+".5"
		}
		tpl += "#set($v" + strconv.Itoa(j) + " = " + val + ")"
		want += w + ","
	}
	for j := 0; j < n; j++ {
		tpl += "$v" + strconv.Itoa(j) + ","
	}
	sym.Assert(render(tpl, v("x", x)) == want, "every variable holds what it was assigned")
	sym.Reach("end")
}

// C36_depth: a long line of planners each derived from the one before.
func C36_depth() {
	n := size("n", 1, 33, 65)
	x := sym.Int("x")
	p := velty.New(velty.EscapeHTML(true))
	sym.Assert(p.RegisterFunction("twice", func(i int) int { return 2 * i }) == nil, "registers")
	tpl, want := "", ""
	vals := []kv{}
	j0 := at("at", n)
	planners := []*velty.Planner{p}
	for j := 0; j < n; j++ {
		name := "v" + strconv.Itoa(j)
		val := j
		if j == j0 {
			val = x
		}
		sym.Assert(p.DefineVariable(name, 0) == nil, "defined")
		vals = append(vals, v(name, val))
		tpl += "$twice($" + name + ")$s"
		want += strconv.Itoa(2*val) + "&lt;"
		if j == 0 {
			sym.Assert(p.DefineVariable("s", "") == nil, "defined")
		}
		p = p.New()
		planners = append(planners, p)
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, v("s", "<"))
	set(st, vals...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == want, "the definitions of all ancestors are seen")
	_, ns, err = planners[j0].Compile([]byte("$v" + strconv.Itoa(j0)))
	sym.Assert(err == nil, "compiles")
	sym.Assert((ns().SetValue("v"+strconv.Itoa(n-1), 1) == nil) == (j0 == n-1), "an ancestor does not see what its descendants define")
	sym.Reach("end")
}

type C36Side struct {
	P  byte
	SI int
}

// C36_siblings: types embedded in planners derived from one planner, before and after compilations.
func C36_siblings() {
	x, y := sym.Int("x"), sym.Int("y")
	root := velty.New()
	if sym.Choice("pad", 2) == 1 {
		sym.Assert(root.DefineVariable("pad", byte(1)) == nil, "defined")
	}
	ps := []*velty.Planner{root, root.New(), root.New()}
	embedded := [3][2]bool{}
	vals := func(j int) []interface{} {
		return []interface{}{struct {
			U  byte
			UI int
		}{1, x + j}, C36Side{2, y - j}}
	}
	type done struct {
		ex  *est.Execution
		ns  func() *est.State
		who int
		has [2]bool
	}
	var all []done
	compile := func(who int) {
		ex, ns, err := ps[who].Compile([]byte("$UI,$SI#set($z = 1)#set($y = $z + 2),$y"))
		sym.Assert(err == nil, "compiles")
		all = append(all, done{ex, ns, who, embedded[who]})
	}
	n := sym.N(4, 6)
	for j := 0; j < n; j++ {
		k := strconv.Itoa(j)
		who := sym.Choice("who"+k, 3)
		switch op := sym.Choice("op"+k, 3); op {
		case 2:
			compile(who)
		default:
			if embedded[who][op] {
				sym.Assume(false)
			}
			sym.Assert(ps[who].EmbedVariable(vals(0)[op]) == nil, "type can be embedded")
			embedded[who][op] = true
		}
	}
	for who := range ps {
		compile(who)
	}
	for j, d := range all {
		st := d.ns()
		want := []string{"$UI", "$SI"}
		for t, val := range vals(j) {
			err := st.EmbedValue(val)
			if d.has[t] {
				sym.Assert(err == nil, "a value embedded in the planner can be set")
			} else {
				// a template compiled before the planner embedded the type, or by another planner
				continue
			}
			want[t] = strconv.Itoa([]int{x + j, y - j}[t])
		}
		sym.Assert(d.ex.Exec(st) == nil, "executes")
		sym.Assert(st.Buffer.String() == want[0]+","+want[1]+",3", "what is embedded in a planner is seen by it only")
	}
	sym.Reach("end")
}

// C22_depth: deep nesting of everything that nests, cut anywhere or not.
func C22_depth() {
	n := size("n", 1, 65, 257)
	pair := [][2]string{{"(", ")"}, {"#if(", ")#end"}, {"!", ""}, {"$f(", ")"}, {"$xs[", "]"}, {"${", "}"}, {"\"", "\""}, {"#set($x = ", ")"}, {"#foreach($e in ", ")#end"}, {"#[[", "]]#"}, {"[", "]"}, {"{", "}"}, {"$r.", ""}, {"#evaluate(", ")"}, {"#for(", ";;)#end"}, {"-", ""}, {"1 + ", ""}, {"$xs[0]", ""}}[sym.Choice("pair", 18)]
	m := []int{0, n - 1, n, n + 1}[sym.Choice("closed", 4)]
	mid := choose("mid", "$x", "1", "", "$s", "\"")
	around := sym.Choice("around", 6)
	head := []string{"", "#if(", "$f(", "#set($q = ", "#foreach($e in $xs)", "#if("}[around]
	tail := []string{"", ")#end", ")", ")", "#end", ""}[around]
	tpl := head + strings.Repeat(pair[0], n) + mid + strings.Repeat(pair[1], m) + tail
	p := velty.New()
	for _, x := range []kv{v("x", sym.Int("x")), v("s", "s"), v("xs", []int{1, 2}), v("r", c03Rec{})} {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "defined")
	}
	sym.Assert(p.RegisterFunction("f", func(i int) int { return i + 1 }) == nil, "registers")
	_, _, err := p.Compile([]byte(tpl))
	sym.Observe("err", b2s(err != nil))
	sym.Reach("end")
}

// C27_names: long names which differ in their last byte, or are prefixes of each other.
func C27_names() {
	n := size("n", 1, 300, 4097)
	x, y := sym.Int("x"), sym.Int("y")
	a := scaleFill("nameName_12", n)
	b := a + choose("more", "B", "_", "9")
	c := a[:n-1] + "Z"
	vars := []kv{v(a, x), v(b, y), v(c, x-y)}
	want := "<" + strconv.Itoa(x) + "," + strconv.Itoa(y) + "," + strconv.Itoa(x-y) + ">"
	sym.Assert(render("<$"+a+",$"+b+",${"+c+"}>", vars...) == want, "long names are told apart")
	sym.Reach("end")
}

// C24_fields: structs of many fields with long names.
func C24_fields() {
	n := size("n", 1, 100, 300)
	l := size("len", 0, 65, 1025)
	x := sym.Int("x")
	j0 := at("at", n)
	fields := []reflect.StructField{}
	tpl, want := "", ""
	for j := 0; j < n; j++ {
		name := "F" + scaleFill("field_", l) + strconv.Itoa(j)
		t := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(true)}[j%3]
		if j == j0 {
			t = reflect.TypeOf(0)
		}
		fields = append(fields, reflect.StructField{Name: name, Type: t})
		tpl += "${r." + name + "},"
	}
	r := reflect.New(reflect.StructOf(fields)).Elem()
	for j := 0; j < n; j++ {
		switch f := r.Field(j); {
		case j == j0:
			f.SetInt(int64(x))
			want += strconv.Itoa(x) + ","
		case j%3 == 0:
			f.SetInt(int64(j))
			want += strconv.Itoa(j) + ","
		case j%3 == 1:
			f.SetString("s" + strconv.Itoa(j))
			want += "s" + strconv.Itoa(j) + ","
		default:
			f.SetBool(j%2 == 0)
			want += strconv.FormatBool(j%2 == 0) + ","
		}
	}
	sym.Assert(render(tpl, v("r", r.Interface())) == want, "every field of a struct of many fields")
	sym.Reach("end")
}

// C20_length: texts of many lengths.
func C20_length() {
	n := size("n", 0, 513, 4097)
	s := sym.StrOf("s", 0, sym.N(2, 3), "aB ,1")
	m := n / 3
	x := scaleFill("Ab, c", m) + s + scaleFill(" dE,", n-m)
	form := sym.Choice("form", 12)
	call := []string{"strings.ToUpper($s)", "strings.ToLower($s)", "strings.TrimSpace($s)", "strings.HasPrefix($s, \"Ab\")", "strings.HasSuffix($s, \",\")", "strings.Index($s, \"B,1\")", "strings.ReplaceAll($s, \",\", \"<>\")", "strings.Trim($s, \" ,\")", "strings.LastIndex($s, \"aB\")", "strings.Length($s)", "json.Marshal($strings.Fields($s))", "json.Marshal($strings.Split($s, \",\"))"}[form]
	var want string
	switch form {
	case 0:
		want = strings.ToUpper(x)
	case 1:
		want = strings.ToLower(x)
	case 2:
		want = strings.TrimSpace(x)
	case 3:
		want = strconv.FormatBool(strings.HasPrefix(x, "Ab"))
	case 4:
		want = strconv.FormatBool(strings.HasSuffix(x, ","))
	case 5:
		want = strconv.Itoa(strings.Index(x, "B,1"))
	case 6:
		want = strings.ReplaceAll(x, ",", "<>")
	case 7:
		want = strings.Trim(x, " ,")
	case 8:
		want = strconv.Itoa(strings.LastIndex(x, "aB"))
	case 9:
		want = strconv.Itoa(len(x))
	case 10:
		b, _ := json.Marshal(strings.Fields(x))
		want = string(b)
	default:
		b, _ := json.Marshal(strings.Split(x, ","))
		want = string(b)
	}
	sym.Assert(render("${"+call+"}", v("s", x)) == want, "the helper equals its Go counterpart: "+call)
	sym.Reach("end")
}

// C22_numbers: numbers of any size and form, complete or not, wherever a number is accepted.
func C22_numbers() {
	nums := []string{"0", "-0", "1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "4611686018427387904", "-4611686018427387905", "18446744073709551616",
		"1e400", "1e-400", "1e308", "1.", ".5", "-", "--1", "00", "007", "1e", "1e+", "1E5", "1.5", "1.5.5", "0x7f", "1_0", "1e5", strings.Repeat("9", 400), "0." + strings.Repeat("0", 400) + "1", "+1", "1e9223372036854775807", "NaN", "Inf", " 1 ", "1 2", "~1"}
	n := nums[sym.Choice("n", len(nums))]
	place := sym.Choice("place", 16)
	m := n
	if place < 2 {
		m = nums[sym.Choice("m", len(nums))]
	}
	tpl := []string{"#foreach($e in [" + n + "..." + m + "])$e#end", "#set($q = " + n + " * " + m + ")$q", "#foreach($e in [" + n + "...0])$e#end", "$xs[" + n + "]", "${xs[" + n + "]}", "$m[" + n + "]", "$mi[" + n + "]",
		"#if($x == " + n + ")y#end", "#if($f > " + n + ")y#end", "#if(" + n + ")y#end", "$f1(" + n + ")", "$f2(" + n + ")", "#for($q = " + n + "; $q < 0; $q++)$q#{end}#end", "#set($x = " + n + ")$x", "#set($f = $f / " + n + ")$f", "#for($q = 0; $q < 2; $q += " + n + ")#set($q = 5)#end"}[place]
	p := velty.New()
	vars := []kv{v("x", sym.Int("x")), v("f", 1.5), v("xs", []int{1, 2}), v("m", map[string]int{"1": 1}), v("mi", map[int]int{1: 1})}
	for _, a := range vars {
		sym.Assert(p.DefineVariable(a.name, a.val) == nil, "defined")
	}
	sym.Assert(p.RegisterFunction("f1", func(i int) int { return i }) == nil, "registers")
	sym.Assert(p.RegisterFunction("f2", func(i float64) float64 { return i }) == nil, "registers")
	ex, ns, err := p.Compile([]byte(tpl))
	if err != nil {
		sym.Reach("rejected")
		return
	}
	if place < 3 || place == 12 || place == 15 { // executing may take as many steps as the number says
		sym.Reach("accepted")
		return
	}
	st := ns()
	set(st, vars...)
	msg := c22Exec(func() { ex.Exec(st) })
	sym.Assert(msg == "" || strings.Contains(msg, "divide by zero") || strings.Contains(msg, "out of range"), "the plan executes: "+tpl+" "+msg)
	sym.Reach("executed")
}

type c24Sep struct {
	B    int
	B__C int
	B___ c24SepIn
	B_   c24SepIn
	Bc   *c24SepIn
}

type c24SepIn struct {
	C    int
	B__C int
}

// C24_underscores: names which differ in underscores, the same characters split differently between names included.
func C24_underscores() {
	vars := []string{"a", "a_", "a__B", "a___B", "a____B", "a___B__C", "a___B___", "a___B_____C", "a___Bc___C", "a_____B", "a__", "a___"}
	n := len(vars)
	p := velty.New()
	x, y := sym.Int("x"), sym.Int("y")
	sc := sym.Choice("struct", n+1)
	var st0 interface{}
	val := c24Sep{B: x, B__C: y, B___: c24SepIn{C: x - 1, B__C: x - 2}, B_: c24SepIn{C: y - 1, B__C: y - 2}, Bc: &c24SepIn{C: x - y}}
	st0 = val
	if sym.Choice("ptr", 2) == 1 {
		st0 = &val
	}
	first := sym.Choice("first", 2) == 1
	def := func(name string, val interface{}) {
		sym.Assert(p.DefineVariable(name, val) == nil, "defined: "+name)
	}
	if first && sc < n {
		def(vars[sc], st0)
	}
	for j := 0; j < n; j++ {
		if j != sc {
			def(vars[j], 0)
		}
	}
	if !first && sc < n {
		def(vars[sc], st0)
	}
	tpl, want := "", ""
	for j := 0; j < n; j++ {
		if j == sc {
			for k, f := range []string{"B", "B__C", "B___.C", "B___.B__C", "B_.C", "B_.B__C", "Bc.C"} {
				tpl += "<${" + vars[j] + "." + f + "}>"
				want += "<" + strconv.Itoa([]int{x, y, x - 1, x - 2, y - 1, y - 2, x - y}[k]) + ">"
			}
			continue
		}
		tpl += "<$" + vars[j] + ">"
		want += "<" + strconv.Itoa(x+j) + ">"
	}
	ex, ns, err := p.Compile([]byte(tpl + "$b___B"))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	for j := 0; j < n; j++ {
		if j == sc {
			set(st, v(vars[j], st0))
		} else {
			set(st, v(vars[j], x+j))
		}
	}
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == want+"$b___B", "names are told apart: "+tpl)
	// a name made of the one of a variable and of a field is not defined
	if sc < n {
		q := velty.New()
		sym.Assert(q.DefineVariable(vars[sc], st0) == nil, "defined")
		ex, ns, err := q.Compile([]byte("$" + vars[sc] + "___B"))
		sym.Assert(err == nil, "compiles")
		st := ns()
		set(st, v(vars[sc], st0))
		sym.Assert(ex.Exec(st) == nil && st.Buffer.String() == "$"+vars[sc]+"___B", "an undefined name")
	}
	sym.Reach("end")
}
