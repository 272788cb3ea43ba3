package main

import (
	"strings"

	"github.com/viant/velty"
	"veltyverif/sym"
)

// c31Plain restricts a text to bytes that start nothing.
func c31Plain(t string) string {
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] != '#' && t[i] != '$')
	}
	return t
}

// c31Line restricts a text to one line.
func c31Line(t string) string {
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] != '\n')
	}
	return t
}

func c31Vars() []kv {
	return []kv{v("x", "<X>"), v("t", true), v("f", false), v("xs", []int{1, 2}), v("d", "D"), v("n", 3)}
}

func c31Run(tpl string, opts []velty.Option) string {
	p := velty.New(opts...)
	vars := c31Vars()
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "template executes")
	return st.Buffer.String()
}

// the places of a comment (\x01 is the comment with its newline, \x02 plain text), and what is printed
var c31Tpl = []string{
	"\x02\x01\x02", "\x01\x02", "\x01\x01\x02", "a\x01b\x01\x02",
	"#if($t)\x01yes\x02#end\x02", "#if($t)yes\x01#else\x01no#end\x02", "#if($f)a\x01#elseif($t)\x01b\x01#else\x01c#end\x02", "#if($f)\x01a\x01#{else}\x01b#end\x01\x02",
	"#foreach($e in $xs)\x01$e\x01,#end\x02", "#for($i = 0; $i < 2; $i++)\x01.\x01#end\x02", "#set($z = \"q\")\x01$z\x01\x02", "$x\x01$n", "${x}\x01\x02",
	"#if($t)#if($t)\x01in\x01#end\x01#end\x01\x02", "#evaluate($d)\x01\x02", "#[[\x02]]#\x01\x02",
}
var c31Want = []string{
	"\x02\x02", "\x02", "\x02", "ab\x02",
	"yes\x02\x02", "yes\x02", "b\x02", "b\x02",
	"1,2,\x02", "..\x02", "q\x02", "<X>3", "<X>\x02",
	"in\x02", "D\x02", "\x02\x02",
}

func c31Fill(s, c, t string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 1:
			out += c
		case 2:
			out += t
		default:
			out += s[i : i+1]
		}
	}
	return out
}

// what a comment may hold that would do something outside of it
var c31Inside = []string{"", "#end", "#if($t)", "$x", "${x", "#else", "#set($x = \"?\")", "##", "#[[", "]]#", "#foreach($e in $xs)", "\"", "'", "(", "{", "\\", "#"}

// C31_comment: a comment of arbitrary bytes, anywhere in a template.
func C31_comment() {
	i := sym.Choice("tpl", len(c31Tpl))
	n := sym.N(2, 4)
	c := "##"
	switch sym.Choice("kind", 2) {
	case 0:
		c += c31Line(sym.Str("c", n))
	default:
		in := c31Inside[sym.Choice("inside", len(c31Inside))]
		c += c31Line(sym.Str("c", 1)) + in + c31Line(sym.Str("e", sym.N(0, 1)))
	}
	t := c31Plain(sym.Str("t", sym.N(1, 2)))
	if len(t) > 0 && strings.HasSuffix(c31Tpl[i], "$n") {
		t = ""
	}
	out := c31Run(c31Fill(c31Tpl[i], c+"\n", t), nil)
	sym.Assert(out == c31Fill(c31Want[i], "", t), "a comment removes itself and its line end: "+c31Tpl[i])
	sym.Reach("end")
}

// C31_last: a comment that ends the template.
func C31_last() {
	c := "##" + c31Line(sym.Str("c", sym.N(3, 5)))
	pre := choose("pre", "", "a", "a\n", "$x", "${x}", "#set($z = 1)", "#if($t)a#end", "#[[$x]]#", "##\n", "#foreach($e in $xs)$e#end")
	want := map[string]string{"$x": "<X>", "${x}": "<X>", "#set($z = 1)": "", "#if($t)a#end": "a", "#[[$x]]#": "$x", "##\n": "", "#foreach($e in $xs)$e#end": "12"}
	w, ok := want[pre]
	if !ok {
		w = pre
	}
	t := ""
	if pre == "" || pre == "a" {
		t = c31Plain(sym.Str("t", 2))
	}
	out := c31Run(pre+t+c, nil)
	sym.Assert(out == w+t, "a comment at the end removes itself: "+pre)
	sym.Reach("end")
}

// C31_raw: a raw block of arbitrary bytes, surrounded by anything.
func C31_raw() {
	n := sym.N(3, 4)
	r := sym.Str("r", n)
	if sym.Choice("kind", 2) == 1 {
		in := choose("inside", "#end", "#if($t)", "$x", "${x}", "#else", "#set($x = 1)", "##", "\n", "#[[", "[", "]", "]]", "]#", "\"", "'", "`", "\\\"", "(", "{", "}", "#{end}", "<b>&", "#evaluate($d)", "## c\n", "don't", "[a] b]")
		r = sym.Str("r", 1) + in + sym.Str("s", 1)
	}
	sym.Assume(!strings.Contains(r+"]]#", "]]#") || strings.Index(r+"]]#", "]]#") == len(r))
	pre, wpre := "", ""
	post, wpost := "", ""
	switch sym.Choice("pre", 6) {
	case 0:
	case 1:
		pre = c31Plain(sym.Str("t", 1))
		wpre = pre
	case 2:
		pre, wpre = "$x", "<X>"
	case 3:
		pre, wpre = "#if($t)", ""
		post, wpost = "#end", ""
	case 4:
		pre, wpre = "#[[it's]]#", "it's"
	default:
		pre, wpre = "## c\n", ""
	}
	switch sym.Choice("post", 6) {
	case 0:
	case 1:
		q := c31Plain(sym.Str("q", 1))
		post, wpost = q+post, q+wpost
	case 2:
		post, wpost = "$x"+post, "<X>"+wpost
	case 3:
		post, wpost = "#[[it's $x]]#"+post, "it's $x"+wpost
	case 4:
		post, wpost = "## ]]#\n"+post, wpost
	default:
		post, wpost = "${n}]]"+post, "3]]"+wpost
	}
	var opts []velty.Option
	if sym.Choice("esc", 2) == 1 {
		opts = []velty.Option{velty.EscapeHTML(true)}
		wpre, wpost = strings.ReplaceAll(wpre, "<X>", "&lt;X&gt;"), strings.ReplaceAll(wpost, "<X>", "&lt;X&gt;")
	}
	out := c31Run(pre+"#[["+r+"]]#"+post, opts)
	sym.Assert(out == wpre+r+wpost, "a raw block is emitted untouched")
	sym.Reach("end")
}

// C31_blocks: raw blocks in blocks that are executed, skipped or repeated.
func C31_blocks() {
	r := sym.Str("r", sym.N(2, 3))
	sym.Assume(!strings.Contains(r+"]]#", "]]#") || strings.Index(r+"]]#", "]]#") == len(r))
	q := "#[[" + r + "]]#"
	tpl := choose("tpl", "#if($t)1#else2#end", "#if($f)1#else2#end", "#if($f)1#elseif($t)2#end", "#foreach($e in $xs)1#end", "#for($i = 0; $i < 3; $i++)1#end", "#if($t)#if($f)1#end#end2", "11", "#foreach($e in $xs)#if($t)1#end#end2", "#set($y = 1)1##1\n2")
	want := map[string]int{"#foreach($e in $xs)1#end": 2, "#for($i = 0; $i < 3; $i++)1#end": 3, "11": 2, "#foreach($e in $xs)#if($t)1#end#end2": 3, "#set($y = 1)1##1\n2": 2}
	n := 1
	if k, ok := want[tpl]; ok {
		n = k
	}
	src := ""
	for i := 0; i < len(tpl); i++ {
		c := tpl[i]
		if (c == '1' || c == '2') && !(i > 2 && tpl[i-1] == ' ') {
			if strings.HasPrefix(tpl[max0(i-2):], "##1") {
				src += "no"
				continue
			}
			src += q
			continue
		}
		src += tpl[i : i+1]
	}
	out := c31Run(src, nil)
	sym.Assert(out == strings.Repeat(r, n), "a raw block is emitted as often as its block is executed: "+tpl)
	sym.Reach("end")
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

// C31_dynamic: comments and raw blocks in text evaluated at execution time.
func C31_dynamic() {
	c := c31Line(sym.Str("c", sym.N(2, 3)))
	r := sym.Str("r", sym.N(2, 3))
	sym.Assume(!strings.Contains(r+"]]#", "]]#") || strings.Index(r+"]]#", "]]#") == len(r))
	dyn := "a##" + c + "\n${n}#[[" + r + "]]#b"
	p := velty.New()
	vars := []kv{v("n", 3), v("dyn", dyn)}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte("<#evaluate($dyn)>"))
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "template executes")
	sym.Assert(st.Buffer.String() == "<a3"+r+"b>", "comments and raw blocks mean the same in evaluated text")
	sym.Reach("end")
}
