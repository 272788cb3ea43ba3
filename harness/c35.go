package main

import (
	"strconv"
	"strings"

	"github.com/viant/velty"
	"veltyverif/sym"
)

// c35Ref tells whether t, the text after a $, is one reference and nothing else, and the name it refers to.
func c35Ref(t string) (name string, ok bool) {
	if strings.HasPrefix(t, "!") {
		t = t[1:]
	}
	if strings.HasPrefix(t, "{") {
		if !strings.HasSuffix(t, "}") {
			return "", false
		}
		in := t[1 : len(t)-1]
		if strings.ContainsAny(in, "{}") && !(strings.HasPrefix(strings.TrimPrefix(in, "!"), "{")) {
			return "", false
		}
		return c35Ref(in)
	}
	if t == "" {
		return "", false
	}
	for i := 0; i < len(t); i++ {
		if t[i] != 'x' && t[i] != 'a' {
			return "", false
		}
	}
	return t, true
}

// c35Text is the value of the literal "t"; ok is false if it refers to a variable that is not defined.
func c35Text(t string, vars map[string]string) (string, bool) {
	if strings.HasPrefix(t, "$") {
		if name, ok := c35Ref(t[1:]); ok {
			val, ok := vars[name]
			return val, ok
		}
	}
	return t, true
}

// c35Use uses the literal and gives what it contributes to the output.
func c35Use(lit, want string) (tpl, out string) {
	switch sym.Choice("use", 6) {
	case 0:
		return "#set($y = " + lit + ")[$y]", "[" + want + "]"
	case 1:
		return "[$echo(" + lit + ")]", "[" + want + "]"
	case 2:
		return "[$cat(\"-\", " + lit + ", \"+\")]", "[-" + want + "+]"
	case 3:
		return "#if($w == " + lit + ")Y#{else}N#end", "Y"
	case 4:
		return "#if(" + lit + " != $w)Y#{else}N#end", "N"
	default:
		return "[$m[" + lit + "]]", "[hit]"
	}
}

func c35Run(t string) {
	x := "v"
	if sym.Choice("val", 2) == 1 {
		x = "v w"
	}
	want, defined := c35Text(t, map[string]string{"x": x, "a": ""})
	tpl, out := c35Use("\""+t+"\"", want)
	p := velty.New()
	sym.Assert(p.RegisterFunction("echo", func(s string) string { return s }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("cat", func(a, b, c string) string { return a + b + c }) == nil, "function registers")
	vars := []kv{v("p", byte(1)), v("x", x), v("a", ""), v("w", want), v("m", map[string]string{want: "hit", "other": "miss"})}
	for _, q := range vars {
		sym.Assert(p.DefineVariable(q.name, q.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	if !defined {
		if err == nil { // a reference that cannot be resolved is left as it is
			st := ns()
			set(st, vars...)
			sym.Assert(ex.Exec(st) == nil, "executes")
			sym.Assert(strings.HasPrefix(tpl, "[") && st.Buffer.String() == tpl, "an undefined variable has no value")
		}
		sym.Reach("undefined")
		return
	}
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == out, "the value of a string literal")
	sym.Reach("end")
}

// C35_reference: texts around and inside references.
func C35_reference() {
	c35Run(sym.StrOf("t", 0, sym.N(4, 6), "$x{}! a"))
}

// C35_bytes: any bytes.
func C35_bytes() {
	t := sym.Str("t", sym.N(2, 3))
	sym.Assume(!strings.ContainsAny(t, "\"$") && !strings.HasSuffix(t, "\\"))
	c35Run(t)
}

// C35_around: any byte before or after a reference.
func C35_around() {
	ref := choose("ref", "$x", "${x}", "$!x", "$!{x}")
	b := sym.StrN("b", 1)
	c := b[0]
	sym.Assume(c != '"')
	t := ref + b
	name := c == '_' || c == '-' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
	if sym.Choice("side", 2) == 1 {
		sym.Assume(c != '$')
		t = b + ref
	} else if !strings.HasSuffix(ref, "}") {
		sym.Assume(!name && c < 0x80)
	}
	sym.Assume(!strings.HasSuffix(t, "\\"))
	c35Run(t)
}

// c35Number tells whether t is a number and whether it is an integer.
func c35Number(t string) (num, integer bool) {
	i := 0
	digits := func() bool {
		from := i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		return i > from
	}
	if i < len(t) && t[i] == '-' {
		i++
	}
	if !digits() {
		return false, false
	}
	integer = true
	if i < len(t) && t[i] == '.' {
		integer = false
		i++
		if !digits() {
			return false, false
		}
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		integer = false
		i++
		if i < len(t) && (t[i] == '-' || t[i] == '+') {
			i++
		}
		if !digits() {
			return false, false
		}
	}
	return i == len(t), integer
}

// c35Check uses a number in each place an operand can be in.
func c35Check(t string) {
	_, integer := c35Number(t)
	var want interface{}
	var err error
	if integer {
		want, err = strconv.Atoi(t)
	} else {
		want, err = strconv.ParseFloat(t, 64)
	}
	fits := err == nil
	var got interface{}
	p := velty.New()
	sym.Assert(p.RegisterFunction("got", func(x interface{}) string { got = x; return "" }) == nil, "function registers")
	for _, q := range []kv{v("p", byte(0)), v("k", 0), v("f", 0.0), v("m", map[string]string{"a": "b"})} {
		sym.Assert(p.DefineVariable(q.name, q.val) == nil, "variable can be defined")
	}
	tpl, call := "", false
	switch sym.Choice("use", 6) {
	case 0:
		tpl = "#set($y = " + t + ")$got($y)"
	case 1:
		tpl, call = "$got("+t+")", true
	case 2:
		tpl, call = "#if(true)$got( "+t+" )#end", true
	case 3:
		tpl = "#if($f == " + t + ")$got(true)#{else}$got(false)#end"
		want = want == 0.0 || want == 0
	case 4:
		tpl = "#set($y = (" + t + "))$got($y)"
	default:
		tpl = "#set($y = 0.0 + " + t + ")$got($y)"
		zero := 0.0
		if i, ok := want.(int); ok {
			want = zero + float64(i)
		} else {
			want = zero + want.(float64)
		}
	}
	ex, ns, err := p.Compile([]byte(tpl))
	if !fits && !call {
		sym.Assert(err != nil, "a number that does not fit is reported: "+t)
		sym.Reach("error")
		return
	}
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	sym.Assert(ex.Exec(st) == nil, "executes")
	if !fits {
		sym.Assert(got == nil && st.Buffer.String() == strings.TrimSuffix(strings.TrimPrefix(tpl, "#if(true)"), "#end"), "a number that does not fit is not used: "+t)
		sym.Reach("left")
		return
	}
	if w, ok := want.(float64); ok {
		g, ok := got.(float64)
		sym.Assert(ok && sym.SameFloat(g, w), "the value of the number "+t)
	} else {
		sym.Assert(got == want, "the value of the number "+t)
	}
	sym.Reach("end")
}

// C35_number: an integer or float literal is the number it spells, one that does not fit is reported.
func C35_number() {
	t := choose("t",
		"0", "7", "-1", "007", "-0", "12", "1.5", "-2.25", "0.1", "1e3", "1E3", "-1e-2", "1.5E+2", "2e0", "0.0", "-0.0",
		"9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "99999999999999999999",
		"9223372036854775808.0", "1e308", "1e309", "-1E400", "1e-400", "123456789.123456789", "0.30000000000000004")
	c35Check(t)
}

// C35_digits: any text that is a number.
func C35_digits() {
	t := sym.StrOf("t", 1, sym.N(3, 5), "019.-+eE")
	num, _ := c35Number(t)
	sym.Assume(num)
	c35Check(t)
}
