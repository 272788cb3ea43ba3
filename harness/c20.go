package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/functions"
	"veltyverif/sym"
)

// c20Call executes $see(call) and returns what the built-in returned, the text of the error and whether it was called.
func c20Call(call string, vars ...kv) (interface{}, string) {
	var seen []interface{}
	p := velty.New()
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "function registers")
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	form := sym.Choice("form", 2)
	tpl := "$see(" + call + ")"
	if form == 1 {
		tpl = "#set($res = " + call + ")$see($res)"
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	sym.Assert(len(seen) == 1, "the result is passed on once")
	return seen[0], msg
}

func c20Msg(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

const c20Alpha = "aAbB zZ09-\t\n.\xc3\xa9\xc4\xb0"

// C20_strings: the strings group against package strings, through a template and called directly.
func C20_strings() {
	a, b, c := sym.StrOf("a", 0, sym.N(3, 4), "aB \t-"), sym.StrOf("b", 0, 2, "aB "), sym.StrOf("c", 0, 1, "xa")
	var call string
	var want, direct interface{}
	f := functions.Strings{}
	switch sym.Choice("fn", 13) {
	case 0:
		call, want, direct = "$strings.ToLower($a)", strings.ToLower(a), f.ToLower(a)
	case 1:
		call, want, direct = "$strings.ToUpper($a)", strings.ToUpper(a), f.ToUpper(a)
	case 2:
		call, want, direct = "$strings.ReplaceAll($a, $b, $c)", strings.ReplaceAll(a, b, c), f.ReplaceAll(a, b, c)
	case 3:
		call, want, direct = "$strings.HasSuffix($a, $b)", strings.HasSuffix(a, b), f.HasSuffix(a, b)
	case 4:
		call, want, direct = "$strings.HasPrefix($a, $b)", strings.HasPrefix(a, b), f.HasPrefix(a, b)
	case 5:
		call, want, direct = "$strings.Index($a, $b)", strings.Index(a, b), f.Index(a, b)
	case 6:
		call, want, direct = "$strings.Fields($a)", strings.Fields(a), f.Fields(a)
	case 7:
		call, want, direct = "$strings.Split($a, $b)", strings.Split(a, b), f.Split(a, b)
	case 8:
		call, want, direct = "$strings.TrimSpace($a)", strings.TrimSpace(a), f.TrimSpace(a)
	case 9:
		call, want, direct = "$strings.Trim($a, $b)", strings.Trim(a, b), f.Trim(a, b)
	case 10:
		call, want, direct = "$strings.LastIndex($a, $b)", strings.LastIndex(a, b), f.LastIndex(a, b)
	case 11:
		call, want, direct = "$strings.Length($a)", len(a), f.Length(a)
	default:
		set := []string{b, c, "B"}
		in := a == b || a == c || a == "B"
		got, msg := c20Call("$strings.In($set, $a)", v("set", set), v("a", a))
		sym.Assert(c19Same(in, got) && msg == "", "In finds exactly the members")
		sym.Assert(f.In(set, a) == in && !f.In(nil, a) && !f.In([]string{}, a), "In finds exactly the members")
		sym.Reach("end")
		return
	}
	sym.Assert(c19Same(want, direct), "the built-in equals its counterpart: "+call)
	got, msg := c20Call(call, v("a", a), v("b", b), v("c", c))
	sym.Assert(c19Same(want, got) && msg == "", "the built-in equals its counterpart: "+call)
	sym.Reach("end")
}

// C20_bytes: arbitrary bytes, multi byte characters included.
func C20_bytes() {
	n := sym.N(2, 2)
	a, b := sym.Str("a", n), sym.Str("b", 1)
	f := functions.Strings{}
	switch sym.Choice("fn", 12) {
	case 0:
		sym.Assert(f.ToLower(a) == strings.ToLower(a), "ToLower")
	case 1:
		sym.Assert(f.ToUpper(a) == strings.ToUpper(a), "ToUpper")
	case 2:
		sym.Assert(f.ReplaceAll(a, b, "<"+b) == strings.ReplaceAll(a, b, "<"+b), "ReplaceAll")
	case 3:
		sym.Assert(f.HasSuffix(a, b) == strings.HasSuffix(a, b), "HasSuffix")
	case 4:
		sym.Assert(f.HasPrefix(a, b) == strings.HasPrefix(a, b), "HasPrefix")
	case 5:
		sym.Assert(f.Index(a, b) == strings.Index(a, b), "Index")
	case 6:
		sym.Assert(c19Same(f.Fields(a), strings.Fields(a)), "Fields")
	case 7:
		sym.Assert(c19Same(f.Split(a, b), strings.Split(a, b)), "Split")
	case 8:
		sym.Assert(f.TrimSpace(a) == strings.TrimSpace(a), "TrimSpace")
	case 9:
		sym.Assert(f.Trim(a, b) == strings.Trim(a, b), "Trim")
	case 10:
		sym.Assert(f.LastIndex(a, b) == strings.LastIndex(a, b), "LastIndex")
	default:
		sym.Assert(f.Length(a) == len(a), "Length")
	}
	sym.Reach("end")
}

// C20_strconv: the strconv group, errors included.
func C20_strconv() {
	f := functions.Strconv{}
	var call string
	var want interface{}
	var werr, derr error
	var direct interface{}
	var vars []kv
	switch sym.Choice("fn", 6) {
	case 0:
		i := sym.Int("i")
		sym.Opt("realints", 1)
		sym.Assume(i > -1000 && i < 1000)
		call, want, direct, vars = "$strconv.Itoa($i)", strconv.Itoa(i), f.Itoa(i), []kv{v("i", i)}
	case 1:
		s := sym.Str("s", sym.N(2, 3))
		x, e := strconv.Atoi(s)
		y, d := f.Atoi(s)
		call, want, werr, direct, derr, vars = "$strconv.Atoi($s)", x, e, y, d, []kv{v("s", s)}
	case 2:
		s := choose("f", "", "0", "1", "-1.5", "1e3", "1e400", "-1e400", "nan", "NaN", "inf", "-Inf", "0x1p-2", "1_000", "_1", ".", ".5", "5.", "1.7976931348623157e308", "4.9e-324", "1e-400", " 1", "1 ", "abc", "16777217", "0.1")
		x, e := strconv.ParseFloat(s, 64)
		y, d := f.ParseFloat(s)
		call, want, werr, direct, derr, vars = "$strconv.ParseFloat($s)", x, e, y, d, []kv{v("s", s)}
	case 3:
		s := sym.StrOf("s", 0, sym.N(4, 5), "trueTRUfalsFALS01")
		x, e := strconv.ParseBool(s)
		y, d := f.ParseBool(s)
		call, want, werr, direct, derr, vars = "$strconv.ParseBool($s)", x, e, y, d, []kv{v("s", s)}
	case 4:
		s := choose("u", "", "0", "7", "18446744073709551615", "18446744073709551616", "-1", "+1", "0x10", "1_0", "9223372036854775808", " 1", "abc", "00012")
		x, e := strconv.ParseUint(s, 10, 64)
		y, d := f.ParseUint(s)
		call, want, werr, direct, derr, vars = "$strconv.ParseUint($s)", x, e, y, d, []kv{v("s", s)}
	default:
		i, fl := sym.Int("i"), sym.Float64("fl")
		s := choose("t", "1.5", "x", "")
		x, e := f.AsFloat(i)
		sym.Assert(e == nil && x == float64(i), "AsFloat of an int")
		x, e = f.AsFloat(fl)
		sym.Assert(e == nil && sym.SameFloat(x, fl), "AsFloat of a float")
		x, e = f.AsFloat(nil)
		sym.Assert(e == nil && x == 0, "AsFloat of nil")
		_, e = f.AsFloat(true)
		sym.Assert(e != nil, "AsFloat of a bool")
		_, e = f.AsFloat([]int{1})
		sym.Assert(e != nil, "AsFloat of a slice")
		x, e = f.AsFloat(s)
		y, d := strconv.ParseFloat(s, 64)
		sym.Assert(sym.SameFloat(x, y) && c20Msg(e) == c20Msg(d), "AsFloat of a string")
		got, msg := c20Call(choose("ref", "$strconv.AsFloat($i)", "$strconv.AsFloat($fl)", "$strconv.AsFloat($b)"), v("i", i), v("fl", fl), v("b", true))
		if msg == "" {
			g := got.(float64)
			sym.Assert(sym.Or(sym.SameFloat(g, fl), g == float64(i)), "AsFloat in a template")
		}
		sym.Reach("end")
		return
	}
	sym.Assert(c20Eq(want, direct) && c20Msg(werr) == c20Msg(derr), "the built-in equals its counterpart: "+call)
	got, msg := c20Call(call, vars...)
	sym.Assert((werr == nil) == (msg == ""), "an error is reported exactly when the counterpart fails: "+call)
	if werr == nil {
		sym.Assert(c20Eq(want, got), "the built-in equals its counterpart: "+call)
	} else {
		sym.Assert(strings.Contains(msg, werr.Error()), "the error of the counterpart is reported: "+call)
	}
	sym.Reach("end")
}

func c20Eq(a, b interface{}) bool {
	if x, ok := a.(uint64); ok {
		y, ok := b.(uint64)
		return ok && x == y
	}
	return c19Same(a, b)
}

// C20_math: the math group against package math.
func C20_math() {
	f := functions.Math{}
	a, b := sym.Float64("a"), sym.Float64("b")
	var call string
	var want, direct float64
	switch sym.Choice("fn", 8) {
	case 0:
		call, want, direct = "$math.Round($a)", math.Round(a), f.Round(a)
	case 1:
		call, want, direct = "$math.Ceil($a)", math.Ceil(a), f.Ceil(a)
	case 2:
		call, want, direct = "$math.Abs($a)", math.Abs(a), f.Abs(a)
	case 3:
		call, want, direct = "$math.Floor($a)", math.Floor(a), f.Floor(a)
	case 4:
		call, want, direct = "$math.Sqrt($a)", math.Sqrt(a), f.Sqrt(a)
	case 5:
		call, want, direct = "$math.Pow($a, $b)", math.Pow(a, b), f.Pow(a, b)
	case 6:
		call, want, direct = "$math.Min($a, $b)", math.Min(a, b), f.Min(a, b)
	default:
		call, want, direct = "$math.Max($a, $b)", math.Max(a, b), f.Max(a, b)
	}
	sym.Assert(sym.SameFloat(want, direct), "the built-in equals its counterpart: "+call)
	got, msg := c20Call(call, v("a", a), v("b", b))
	sym.Assert(msg == "", "no error")
	sym.Assert(sym.SameFloat(want, got.(float64)), "the built-in equals its counterpart: "+call)
	sym.Reach("end")
}

// c20Any is a value of one of several types; name is the Go type.
func c20Any(k int) (interface{}, string) {
	switch k {
	case 0:
		return sym.Int("i"), "int"
	case 1:
		return sym.Float64("f"), "float64"
	case 2:
		return sym.Str("s", 1), "string"
	case 3:
		return sym.Bool("b"), "bool"
	case 4:
		return int64(sym.Int("i")), "int64"
	case 5:
		return float32(1), "float32"
	case 6:
		return []int{1}, "[]int"
	case 7:
		i := sym.Int("i")
		return &i, "*int"
	case 8:
		return uint8(1), "uint8"
	default:
		return c19Ns{1}, "struct"
	}
}

// C20_types: the type tests and assertions for every type of value.
func C20_types() {
	k := sym.Choice("k", 10)
	val, name := c20Any(k)
	t, e := functions.Types{}, functions.Errors{}
	sym.Assert(t.IsInt(val) == (name == "int"), "IsInt")
	sym.Assert(t.IsFloat64(val) == (name == "float64"), "IsFloat64")
	sym.Assert(t.IsString(val) == (name == "string"), "IsString")
	sym.Assert(t.IsBool(val) == (name == "bool"), "IsBool")
	sym.Assert(!t.IsInt(nil) && !t.IsFloat64(nil) && !t.IsString(nil) && !t.IsBool(nil), "nil is of no type")
	fns := []string{"types.IsInt", "types.IsFloat64", "types.IsString", "types.IsBool", "errors.AssertInt", "errors.AssertFloat", "errors.AssertString", "errors.AssertBool"}
	want := []string{"int", "float64", "string", "bool"}
	d := []func(interface{}) (bool, error){e.AssertInt, e.AssertFloat, e.AssertString, e.AssertBool}
	for i, fn := range d {
		ok, err := fn(val)
		is := name == want[i]
		sym.Assert(ok == is && (err == nil) == is, "assertion "+want[i])
	}
	i := sym.Choice("fn", len(fns))
	is := name == want[i%4]
	vars := []kv{v("x", val), v("h", struct {
		P byte
		A interface{}
		Q byte
	}{1, val, 2})}
	got, msg := c20Call("$"+fns[i]+"("+choose("arg", "$x", "$h.A")+")", vars...)
	if i < 4 || is {
		sym.Assert(c19Same(is, got) && msg == "", "the result of "+fns[i]+" for "+name)
	} else {
		sym.Assert(msg != "", fns[i]+" reports an error for "+name)
	}
	sym.Reach("end")
}

// C20_errors: raising errors and asserting conditions.
func C20_errors() {
	s := sym.Str("s", 2)
	b := sym.Bool("b")
	sym.Assume(s != "")
	e := functions.Errors{}
	x, err := e.Raise(s)
	sym.Assert(x == "" && err != nil && err.Error() == s, "Raise reports its message")
	x, err = e.RegisterError(s)
	sym.Assert(x == "" && err != nil && err.Error() == s, "RegisterError reports its message")
	ok, err := e.AssertWithMessage(b, s)
	sym.Assert(ok == b && (err == nil) == b && (b || err.Error() == s), "AssertWithMessage reports its message when the condition is false")
	fn := choose("fn", "errors.Raise($s)", "errors.RegisterError($s)", "errors.AssertWithMessage($b, $s)", "errors.AssertWithMessage($s == \"q\", $s)", "errors.AssertWithMessage($s == $s, $s)")
	p := velty.New()
	vars := []kv{v("s", s), v("b", b)}
	for _, q := range vars {
		sym.Assert(p.DefineVariable(q.name, q.val) == nil, "variable can be defined")
	}
	ex, ns, cerr := p.Compile([]byte("a${" + fn + "}b"))
	sym.Assert(cerr == nil, "compiles")
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	fails := true
	switch fn {
	case "errors.AssertWithMessage($b, $s)":
		fails = !b
	case "errors.AssertWithMessage($s == \"q\", $s)":
		fails = s != "q"
	case "errors.AssertWithMessage($s == $s, $s)":
		fails = false
	}
	sym.Assert((err != nil) == fails && st.IsValid() == !fails, "the error is reported: "+fn)
	if fails {
		sym.Assert(len(st.Errors) == 1 && st.Errors[0].Error() == s, "the message is reported: "+fn)
	}
	sym.Reach("end")
}
