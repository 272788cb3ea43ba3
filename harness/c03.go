package main

import (
	"html"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c03Rec struct {
	N int
	S string
	P *c03Rec
	L []string
}

type c03Named struct{ A string }

func (r c03Rec) Get() string   { return r.S }
func (r *c03Rec) PGet() string { return r.S }

// c03Run renders tpl with or without escaping.
func c03Run(esc bool, tpl string, vars ...kv) string {
	opts := []velty.Option{velty.BufferSize(8)}
	if esc {
		opts = append(opts, velty.EscapeHTML(true))
	}
	p := velty.New(opts...)
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	sym.Assert(p.RegisterFunction("echo", func(s string) string { return s }) == nil, "function registers")
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "template executes: "+tpl)
	return st.Buffer.String()
}

var c03Src = []string{"$s", "${s}", "$rec.S", "${prec.S}", "$prec.P.S", "${l[0]}", "$l[1]", "$rec.Get()", "${prec.PGet()}", "${m[\"k\"]}", "$i", "$z", "${strings.TrimSpace($s)}", "${echo($s)}", "$cat", "${mi[\"l\"]}", "$mi[\"m\"]", "${mi[\"n\"]}", "$mi[\"s\"]"}
var c03Ctx = []string{"<\x01>", "#if($t)<\x01#end", "#if(!$t)x#{else}\x01>#end", "#if(!$t)x#elseif($t)\x01#end", "#foreach($k in [0...2])&\x01#end", "#for($k = 0; $k < 2; $k++)\x01'#end",
	"#foreach($k in [0...1])#if($t)\"\x01#end#end", "\x01\x01", "#foreach($e in $l)$e#if($t)\x01#end#end"}

func c03Fill(s, with string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] == 1 {
			r += with
		} else {
			r += s[i : i+1]
		}
	}
	return r
}

// C03_scope: every source of a string in every position, escaping on and off.
func C03_scope() {
	esc := sym.Choice("esc", 2) == 1
	src := c03Src[sym.Choice("src", len(c03Src))]
	ci := sym.Choice("ctx", len(c03Ctx))
	s := sym.StrOf("s", 0, sym.N(2, 3), "<a&\"';")
	want := s
	switch src {
	case "$cat":
		want = s + "<"
	case "${mi[\"l\"]}":
		want = "[" + s + " >]"
	case "$mi[\"m\"]":
		want = "map[<:" + s + "]"
	case "${mi[\"n\"]}":
		want = "{" + s + "}"
	}
	// the element rendered by the last context
	e := s
	if esc {
		want, e = html.EscapeString(want), html.EscapeString(e)
	}
	rec := c03Rec{S: s, P: &c03Rec{S: s}}
	tpl := c03Fill(c03Ctx[ci], src)
	pre := ""
	if src == "$z" {
		pre = "#set($z = $s)"
	}
	if src == "$cat" {
		pre = "#set($cat = $s + \"<\")"
	}
	out := c03Run(esc, pre+tpl, v("s", s), v("rec", rec), v("prec", &rec), v("l", []string{s, s}), v("m", map[string]string{"k": s}), v("i", interface{}(s)), v("t", true),
		v("mi", map[string]interface{}{"l": []string{s, ">"}, "m": map[string]string{"<": s}, "n": c03Named{s}, "s": s}))
	var w string
	switch ci {
	case 0:
		w = "<" + want + ">"
	case 1:
		w = "<" + want
	case 2:
		w = want + ">"
	case 3:
		w = want
	case 4:
		w = "&" + want + "&" + want
	case 5:
		w = want + "'" + want + "'"
	case 6:
		w = "\"" + want
	case 7:
		w = want + want
	default:
		w = e + want + e + want
	}
	sym.Assert(out == w, "escaping applies to variable output only, "+src+" in "+c03Ctx[ci])
	sym.Reach("end")
}

// C03_bytes: every byte value.
func C03_bytes() {
	esc := sym.Choice("esc", 2) == 1
	s := sym.Str("s", sym.N(4, 6))
	want := s
	if esc {
		want = html.EscapeString(s)
	}
	out := c03Run(esc, "a<$rec.S>b", v("rec", &c03Rec{S: s}))
	sym.Assert(out == "a<"+want+">b", "string is escaped as html.EscapeString does")
	sym.Reach("end")
}

// C03_evaluate: values rendered by a dynamic template, nested evaluations included.
func C03_evaluate() {
	esc := sym.Choice("esc", 2) == 1
	s := sym.StrOf("s", 0, sym.N(2, 3), "<a&\"';")
	want := s
	if esc {
		want = html.EscapeString(s)
	}
	d := choose("dyn", "<$s>", "<#if($t)$s#end>", "<#foreach($e in $l)$e#end>", "<$rec.S>", "<#evaluate($d2)>")
	tpl := choose("tpl", "#evaluate($d)", "#if($t)#evaluate($d)#end", "#foreach($k in [0...1])#evaluate(${d})#end", "&#evaluate($d)$s")
	out := c03Run(esc, tpl, v("s", s), v("d", d), v("d2", "$s"), v("t", true), v("l", []string{s}), v("rec", c03Rec{S: s}))
	w := "<" + want + ">"
	if tpl[0] == '&' {
		w = "&" + w + want
	}
	sym.Assert(out == w, "escaping of a dynamic template, "+d+" in "+tpl)
	sym.Reach("end")
}
