package main

import (
	"errors"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c22In struct {
	A int
	B string
}

type c22Rec struct {
	P byte
	A int
	S string
	N *c22In
	V c22In
	L []int
	M map[string]int
	F func(int) int
}

func (r *c22Rec) Get(i int) (string, error) {
	if i == 7 || r == nil {
		return "", errors.New("seven")
	}
	return r.S, nil
}

func (r c22Rec) Val() int { return r.A }

func c22Vars() []kv {
	r := c22Rec{P: 1, A: 2, S: "s", N: &c22In{A: 4}, L: []int{5, 6}, M: map[string]int{"a": 1}, F: func(i int) int { return i }}
	return []kv{v("x", 3), v("s", "str"), v("t", true), v("f", 1.5), v("xs", []int{7, 8}), v("ss", []string{"p", "q"}), v("m", map[string]int{"a": 1}),
		v("r", r), v("pr", &r), v("nr", (*c22Rec)(nil)), v("rs", []*c22Rec{&r}), v("ps", &r.S), v("e", interface{}(1)), v("d", "#if($t)$x#end")}
}

// c22Run compiles tpl; when that succeeds it executes the plan. Only a division by zero and an index out of range may
// panic, and only out of the execution.
func c22Run(tpl string, exec bool) {
	p := velty.New()
	vars := c22Vars()
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	sym.Assert(p.RegisterFunction("fn", func(a int, b string) (string, error) { return b, nil }) == nil, "registers")
	sym.Assert(p.RegisterFunction("va", func(a ...string) int { return len(a) }) == nil, "registers")
	sym.Assert(p.RegisterFunction("fn2", func(a int, b []int) []int { return b }) == nil, "registers")
	sym.Assert(p.RegisterFunction("no", func() int { return 1 }) == nil, "registers")
	ex, ns, err := p.Compile([]byte(tpl))
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(ex != nil && ns != nil, "a plan is returned")
	if exec {
		st := ns()
		set(st, vars...)
		msg := c22Exec(func() { ex.Exec(st) })
		sym.Assert(msg == "" || strings.Contains(msg, "divide by zero") || strings.Contains(msg, "out of range") || strings.Contains(msg, "non-positive") || strings.Contains(msg, "negative"), "the plan executes")
		if msg == "" {
			sym.Assert(len(st.Buffer.String()) < 1000, "output is available")
		}
	}
	sym.Reach("compiled")
}

func c22Exec(f func()) (msg string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case error:
			msg = "panic: " + r.Error()
		case string:
			msg = "panic: " + r
		default:
			msg = "panic"
		}
	}()
	f()
	return
}

// C22_bytes: arbitrary bytes.
func C22_bytes() {
	t := sym.Str("t", sym.N(4, 5))
	c22Run(t, true)
}

// C22_grammar: longer strings over the bytes the grammar is sensitive to.
func C22_grammar() {
	t := sym.StrOf("t", 1, sym.N(5, 7), "#$x{}[].(\")!")
	c22Run(t, true)
}

var c22Pre = []string{"$", "${", "$!", "$!{", "$x", "${x", "$r.", "${r.", "$pr.N.", "$nr.N.", "$r.F(", "$r.Get(", "$fn(1, ", "$fn(", "$va(", "$no(", "$xs[", "$m[", "$ss[0", "$rs[0].", "$m[\"", "$fn(1, \"", "$fn(1, `",
	"#", "##", "#[[", "#[[a]]", "#{", "#{e", "#{end", "#{else", "#if(", "#if($", "#if($x ", "#if($x == ", "#if(!", "#if((", "#if($s == \"", "#if($t &", "#if($t && ",
	"#if($t)", "#if($t)a#", "#if($t)a#else", "#if($t)a#elseif(", "#if($t)a#{else}",
	"#set(", "#set($", "#set($y", "#set($y ", "#set($y = ", "#set($y = $", "#set($x = 1 ", "#set($y = \"", "#set($y = (", "#set($r.A", "#set($xs[0", "#set($y = -", "#set($y = 1.", "#set($s = $s + ", "#set($pr.N.B = ",
	"#foreach(", "#foreach($", "#foreach($i", "#foreach($i ", "#foreach($i in ", "#foreach($i in $", "#foreach($i in [", "#foreach($i in [1", "#foreach($i in [1.", "#foreach($i in [1...", "#foreach($i, ", "#foreach($i in $xs", "#foreach($i in $xs)",
	"#foreach($i in $rs)$i.", "#foreach($i in $xs)$i",
	"#evaluate(", "#evaluate($", "#evaluate($d", "#evaluate(\"",
	"#end", "#else", "#elseif", "#elseif($t)", "$x.", "$s.", "$t[", "$e.", "$ps.", "$strings.", "$strings.ToUpper(", "$slices.", "$maps.", "$json.", "$json.UnmarshalInto(", "$json.UnmarshalInto($s,", "$json.Marshal(", "$rs.IndexBy(", "$rs.IndexBy(\"", "$m.HasKey(",
}

var c22Post = []string{"", ")", "}", "]", ")#end", ")}", "\")", "]#", " $x)", "#end", ")a#end", " + 1)", ".A)", "].A", ")]"}

// C22_context: arbitrary bytes at every position of a construct.
func C22_context() {
	pre := c22Pre[sym.Choice("pre", len(c22Pre))]
	post := c22Post[sym.Choice("post", sym.N(8, len(c22Post)))]
	t := sym.StrN("t", sym.N(1, 2))
	c22Run(pre+t+post, true)
}

var c22Mid = []string{".", "(", "[", "(\"", "\")", "[0]", ".A", ".Get(1)", " == ", " + 1", " && $t", ")#end", ")$x#end", "}", ")", "]", "...", ",", " in ", " = "}

// C22_pair: two arbitrary bytes around a fragment.
func C22_pair() {
	pre := c22Pre[sym.Choice("pre", len(c22Pre))]
	mid := c22Mid[sym.Choice("mid", len(c22Mid))]
	post := c22Post[sym.Choice("post", sym.N(2, 6))]
	if sym.Thorough() {
		c22Run(pre+sym.StrN("t", 1)+mid+sym.StrN("u", 1)+post, true)
		return
	}
	c22Run(pre+mid+sym.StrN("u", 1)+post, true)
}

var c22Whole = []string{"#set(${y} = 1)x", "#set($r.A = $x)$r.A", "#set($y = $fn(1, \"a\"))$y", "#set($y = ($x + 1) * 2)$y", "#set($y = \"a$x\")", "#if($x == 3)a#elseif($t)b#{else}c#{end}", "#if(!$t && $s != \"\")a#end",
	"#foreach($i, $k in $xs)$i$k#end", "#foreach($i in [1..3])$i#end", "#for($i = 0; $i < 2; $i++)$i#end", "#for($i = 3; $i > 0; $i -= 1)$i#end", "#evaluate($d)a", "#evaluate(\"$x\")", "#[[a]]#b", "a##b\nc", "$!{x}$!x${x}",
	"$r.N.A.", "${r.V.B}a", "$pr.Get(1).", "$r.F(2)", "$xs[1]$m[\"a\"]", "$rs[0].N.A", "$ps$nr.N.A", "$strings.ToUpper($s)", "$m.HasKey(\"a\")", "$va($s, \"b\")$no()", "$json.UnmarshalInto($s, \"T\")", "$json.Marshal($m)", "#foreach($i in $fn2($x, $xs))$i#end", "$rs.IndexBy(\"A\")"}

// C22_edit: a construct with bytes removed, replaced or inserted at any position.
func C22_edit() {
	t := c22Whole[sym.Choice("whole", len(c22Whole))]
	n := sym.Choice("removed", sym.N(3, 5))
	i := sym.Choice("at", 64)
	sym.Assume(i+n <= len(t))
	ins := ""
	if k := sym.N(2, 3); n < k {
		ins = sym.Str("ins", 1)
	}
	c22Run(t[:i]+ins+t[i+n:], !strings.HasPrefix(t, "#for("))
}

var c22Calls = []string{
	"strings.ToLower", "strings.ToUpper", "strings.ReplaceAll", "strings.HasSuffix", "strings.HasPrefix", "strings.Index", "strings.Fields", "strings.Split", "strings.TrimSpace", "strings.Trim", "strings.LastIndex", "strings.Length", "strings.In",
	"math.Round", "math.Ceil", "math.Abs", "math.Floor", "math.Sqrt", "math.Pow", "math.Min", "math.Max",
	"strconv.Itoa", "strconv.Atoi", "strconv.ParseFloat", "strconv.ParseBool", "strconv.ParseUint", "strconv.AsFloat",
	"slices.Length", "slices.StringAt", "slices.IntAt", "slices.BoolAt", "slices.FloatAt", "slices.ReverseStrings", "slices.ReverseFloats", "slices.ReverseInts",
	"maps.Has", "maps.Get", "maps.GetInt", "maps.GetFloat", "maps.GetBool", "maps.GetString",
	"types.IsInt", "types.IsFloat64", "types.IsString", "types.IsBool",
	"errors.Raise", "errors.RegisterError", "errors.AssertFloat", "errors.AssertInt", "errors.AssertString", "errors.AssertBool", "errors.AssertWithMessage",
	"time.Now", "json.Marshal", "json.UnmarshalInto", "json.MethodResultType", "errors.DiscoverInterfaces",
	"m.HasKey", "mi.HasKey", "rs.IndexBy", "r.V.HasKey", "xs.IndexBy", "nr.Val", "nr.Get", "r.Val", "pr.Val", "r.Get", "e.HasKey", "x.Nope",
}

var c22Args = []string{"$x", "$s", "$t", "$f", "$xs", "$ss", "$m", "$mi", "$r", "$pr", "$nr", "$ps", "$np", "$e", "$en", "$nm", "$u", "$rs", "$r.F", "5", "1.5", "\"a\"", "\"\"", "($x + 1)", "$strings.Length($s)", "$nope", "-1", "!$t"}

// C22_builtin: every built-in with arguments of any type and number; what can not be called is rejected or reported.
func C22_builtin() {
	call := c22Calls[sym.Choice("fn", len(c22Calls))]
	n := sym.Choice("args", sym.N(3, 4))
	args := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			args += ", "
		}
		k := len(c22Args)
		if !sym.Thorough() && n > 1 {
			k = 12
		}
		args += c22Args[sym.Choice("arg"+strconv.Itoa(i), k)]
	}
	tpl := "$" + call + "(" + args + ")"
	if (n < 2 || sym.Thorough()) && sym.Choice("use", 2) == 1 {
		tpl = "#set($y = " + tpl + ")$y"
	}
	p := velty.New()
	vars := append(c22Vars(), v("mi", map[int]string{1: "a"}), v("np", (*string)(nil)), v("nm", map[string]int(nil)), v("u", uint8(4)))
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	sym.Assert(p.DefineVariable("en", reflect.TypeOf((*interface{})(nil)).Elem()) == nil, "variable can be defined")
	ex, ns, err := p.Compile([]byte(tpl))
	if err != nil {
		sym.Reach("rejected")
		return
	}
	st := ns()
	set(st, vars...)
	msg := c22Exec(func() { ex.Exec(st) })
	// the called function itself panics: the length of a number, a method of a nil receiver
	own := (call == "slices.Length" && strings.Contains(msg, "reflect.Value.Len")) || (strings.HasPrefix(call, "nr.") && strings.Contains(msg, "nil"))
	sym.Assert(msg == "" || own || strings.Contains(msg, "out of range"), "the plan executes: "+tpl+" "+msg)
	sym.Reach("compiled")
}
