package main

import (
	"strings"

	"github.com/viant/velty"
	"veltyverif/sym"
)

// c01Exec compiles and executes tpl (which must compile) and returns the output.
func c01Exec(tpl string, opts []velty.Option, vars ...kv) string {
	p := velty.New(opts...)
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "literal text compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "literal text executes")
	return st.Buffer.String()
}

func c01Opts() []velty.Option {
	switch sym.Choice("opts", 3) {
	case 0:
		return nil
	case 1:
		return []velty.Option{velty.EscapeHTML(true)}
	default:
		return []velty.Option{velty.BufferSize(sym.Choice("buf", 2))}
	}
}

// C01_plain: text without # and $ anywhere.
func C01_plain() {
	t := sym.Str("t", sym.N(6, 12))
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] != '#' && t[i] != '$')
	}
	out := c01Exec(t, c01Opts())
	sym.Assert(out == t, "plain text is reproduced")
	sym.Reach("end")
}

// C01_bytes: arbitrary bytes, no variable defined, nothing that is a comment or a directive.
func C01_bytes() {
	t := sym.Str("t", sym.N(3, 4))
	for i := 0; i+1 < len(t); i++ {
		sym.Assume(!(t[i] == '#' && t[i+1] == '#'))
	}
	if len(t) == 4 {
		sym.Assume(t != "#end")
	}
	out := c01Exec(t, nil)
	sym.Assert(out == t, "text resembling references and directives is reproduced")
	sym.Reach("end")
}

// C01_resemble: longer strings over the bytes the grammar is sensitive to.
func C01_resemble() {
	t := sym.StrOf("t", 1, sym.N(5, 6), "#$ae{}!.(\"*")
	for i := 0; i+1 < len(t); i++ {
		sym.Assume(!(t[i] == '#' && t[i+1] == '#'))
	}
	out := c01Exec(t, nil)
	sym.Assert(out == t, "text resembling references and directives is reproduced")
	sym.Reach("end")
}

var c01Look = []string{"#", "$", "#x", "$(", "#(", "# if", "#iff", "#in", "#els", "#fore", "#sett", "$1", "$-", "$$", "#$", "$!", "${", "${}", "#{", "#{}", "#[", "#[x]", "]#", "#set", "#if", "#foreach", "#for", "$_a",
	"a#b", "&<>\"'", "#end2"[:1], "#evaluat", "$.", "$ x", "#1", "http://h/#a?b=$", "#set $x", "100%", "\\", "#* b *#", "#*", "*#", "#**", "#* b *# #* c *#", "#*\n*#", "<!-- c -->", "/* c */", "// c", "{{x}}", "{% x %}", "<%= x %>", "@x", "#@x()", "#!", "#!x", "#;", "#-", "#=", "#macro(x)", "#stop", "#break", "#include", "#parse", "#define", "#return", "#literal()", "#x()",
	"\\#", "\\\\", "\\n", "\r\n", "\t", "  ", "\n\n", "\n \n", " \n", "%d%s%v", "\u00a0", "\u2028", "\ufeff", "\x1b[0m", "\x00", "\xff\xfe", "é"}

// C01_look: fixed look-alikes with arbitrary plain text on both sides.
func C01_look() {
	l := c01Look[sym.Choice("look", len(c01Look))]
	n := sym.N(1, 2)
	a, b := sym.Str("a", n), sym.Str("b", n)
	for i := 0; i < len(a); i++ {
		sym.Assume(a[i] != '#' && a[i] != '$')
	}
	for i := 0; i < len(b); i++ {
		sym.Assume(b[i] != '#' && b[i] != '$')
	}
	if len(b) > 0 {
		c := b[0]
		sym.Assume(!(c >= 'a' && c <= 'z') && c != '(')
	}
	t := a + l + b
	var opts []velty.Option
	if sym.Choice("esc", 2) == 1 {
		opts = []velty.Option{velty.EscapeHTML(true)}
	}
	out := c01Exec(t, opts)
	sym.Assert(out == t, "look-alike is reproduced: "+l)
	sym.Reach("end")
}

var c01Undef = []string{"$u", "${u}", "$!u", "$!{u}", "$u.v", "${u.v}", "$u.v.w", "${u.v.w}", "$u_1", "$U2", "$x1", "${x_}", "$xx.y", "$u[0]", "${u[0]}", "$u[0].v", "$u.v(1)", "$u.v(\"a\")", "${u.v($x)}", "$u.v()"}

// C01_undefined: references to variables that are not defined, next to one that is.
func C01_undefined() {
	u := c01Undef[sym.Choice("u", len(c01Undef))]
	n := sym.N(1, 2)
	a := sym.Str("a", n)
	for i := 0; i < len(a); i++ {
		sym.Assume(a[i] != '#' && a[i] != '$')
	}
	sep := sym.StrN("s", 1)
	c := sep[0]
	sym.Assume(!(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '_' && c != '(' && c != '[' && c != '#' && c != '$')
	x := "X"
	var opts []velty.Option
	if sym.Choice("esc", 2) == 1 {
		opts = []velty.Option{velty.EscapeHTML(true)}
	}
	out := c01Exec(a+u+sep+"${x}"+a, opts, v("x", x))
	sym.Assert(out == a+u+sep+x+a, "undefined reference is printed verbatim: "+u)
	sym.Reach("end")
}

var c01Tpl = []string{
	"\x01$x\x02", "\x01${x}\x02", "\x01$x$x\x02", "\x01#set($z = 1)\x02", "\x01#if($t)\x02#end\x03", "\x01#if(!$t)no#{else}\x02#end\x03",
	"\x01#if(!$t)no#elseif($t)\x02#end\x03", "\x01#foreach($i in [1...3])\x02#end\x03", "\x01#for($i = 0; $i < 2; $i++)\x02#end\x03",
	"\x01#foreach($i in [1...3])\x02#if($t)\x03#end\x02#end\x01", "\x01#[[$q]]#\x02", "\x01#evaluate($d)\x02", "\x01#if($t)#if($t)\x02#end\x03#end\x01",
	"\x01#if($t)\x02#elseif($t)no#{else}no#end\x03", "\x01${rec.F}\x02$rec.F\x03",
}
var c01Want = []string{
	"\x01X\x02", "\x01X\x02", "\x01XX\x02", "\x01\x02", "\x01\x02\x03", "\x01\x02\x03",
	"\x01\x02\x03", "\x01\x02\x02\x03", "\x01\x02\x02\x03",
	"\x01\x02\x03\x02\x02\x03\x02\x01", "\x01$q\x02", "\x01D\x02", "\x01\x02\x03\x01",
	"\x01\x02\x03", "\x01F\x02F\x03",
}

type c01Rec struct{ F string }

// C01_between: text before, inside and after references and directives.
func C01_between() {
	n := sym.N(2, 3)
	c01Fill(sym.Choice("tpl", len(c01Tpl)), c01Opts(), func(k int) string { return sym.Str("t"+string(rune('1'+k)), n) })
}

// C01_around: longer text in one of these places.
func C01_around() {
	i := sym.Choice("tpl", len(c01Tpl))
	which := sym.Choice("which", 3)
	if !strings.Contains(c01Tpl[i], string(rune(1+which))) {
		sym.Assume(false)
	}
	n := []int{3, 4, 5, 8, 12, 16}[sym.Choice("n", sym.N(5, 6))]
	c01Fill(i, nil, func(k int) string {
		if k != which {
			return ""
		}
		return sym.StrN("t", n)
	})
}

func c01Fill(i int, opts []velty.Option, text func(k int) string) {
	tpl, want := c01Tpl[i], c01Want[i]
	var ts [3]string
	for k := range ts {
		if !strings.Contains(tpl, string(rune(1+k))) {
			continue
		}
		t := text(k)
		for j := 0; j < len(t); j++ {
			sym.Assume(t[j] != '#' && t[j] != '$')
		}
		// the byte that follows a bare reference must not continue it
		if len(t) > 0 && k > 0 {
			c := t[0]
			sym.Assume(!(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '_' && c != '(' && c != '[')
			if c == '.' && len(t) > 1 {
				sym.Assume(!(t[1] >= 'a' && t[1] <= 'z') && !(t[1] >= 'A' && t[1] <= 'Z'))
			}
		}
		ts[k] = t
	}
	fill := func(s string) string {
		r := ""
		for j := 0; j < len(s); j++ {
			if s[j] <= 3 {
				r += ts[s[j]-1]
			} else {
				r += s[j : j+1]
			}
		}
		return r
	}
	tpl, want = fill(tpl), fill(want)
	out := c01Exec(tpl, opts, v("x", "X"), v("t", true), v("d", "D"), v("rec", c01Rec{"F"}))
	sym.Assert(out == want, "text around "+c01Tpl[i]+" is reproduced")
	sym.Reach("end")
}
