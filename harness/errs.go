package main

import (
	"errors"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/est/op"
	"github.com/viant/velty/functions"
	"veltyverif/sym"
)

// c21Where places a call: $C is the call, pre what precedes it, tail tells that Z is rendered whatever happens.
var c21Where = []struct {
	tpl  string
	tail bool
}{
	{"A$C Z", true},
	{"A#set($y = $C)Z", true},
	{"A#if($x == 3)$C#{else}$x#end Z", true},
	{"A#foreach($e in $two)$C#end Z", true},
	{"A#for($i = 0; $i < 1; $i++)#set($y = $C)#end Z", true},
	{"A$any($C)Z", true},
}

type c21Kind struct {
	name string
	mk   func() interface{}
}

// C21_builtins: every built-in that reports errors, with any message and with arguments that do and do not make it fail.
func C21_builtins() {
	s := sym.Str("s", sym.N(1, 2))
	b := sym.Bool("b")
	k := sym.Choice("k", 10)
	val, name := c20Any(k)
	is := func(n string) bool { return name == n }
	vars := []kv{v("s", s), v("b", b), v("a", val), v("x", 3), v("two", []int{1}), v("q", "no such key"), v("h", struct {
		P byte
		A interface{}
	}{1, val}), v("mi", map[string]int{"k": 1}), v("ms", map[string]string{"k": "v"}), v("mm", map[string]interface{}{"k": val}), v("rs", []c21Rec{{I: 1}}), v("fs", []c21Fn{{}}), v("c", make(chan int))}
	var call, msg string
	fails := true
	switch sym.Choice("fn", 30) {
	case 0:
		call, msg = "errors.Raise($s)", s
	case 1:
		call, msg = "errors.RegisterError($s)", s
	case 2:
		call, msg, fails = "errors.AssertWithMessage($b, $s)", s, !b
	case 3:
		call = "errors.AssertWithMessage(false, \"\")"
	case 4:
		call, fails = "errors.AssertInt($a)", !is("int")
	case 5:
		call, fails = "errors.AssertFloat($a)", !is("float64")
	case 6:
		call, fails = "errors.AssertString($a)", !is("string")
	case 7:
		call, fails = "errors.AssertBool($a)", !is("bool")
	case 8:
		call, fails = "errors.AssertInt($h.A)", !is("int")
	case 9:
		_, err := strconv.Atoi(s)
		call, fails = "strconv.Atoi($s)", err != nil
	case 10:
		call = "strconv.ParseFloat(\"1.5x\")"
	case 11:
		call, fails = "strconv.ParseBool($s)", s != "1" && s != "0" && s != "t" && s != "f" && s != "T" && s != "F"
	case 12:
		call = "strconv.ParseUint(\"-1\")"
	case 13:
		call, fails = "strconv.AsFloat($a)", !is("int") && !is("float64")
		if is("string") { // one byte
			fails = val.(string) == "" || val.(string) < "0" || val.(string) > "9"
		}
	case 14:
		call = "maps.Get($a, $s)"
	case 15:
		call = "maps.Has($a, $s)"
	case 16:
		call, fails = "maps.GetInt($mi, $s)", s != "k"
	case 17:
		call = "maps.GetString($mi, \"k\")"
	case 18:
		call, fails = "maps.GetString($ms, $s)", s != "k"
	case 19:
		call, fails = "maps.GetInt($mm, \"k\")", !is("int")
	case 20:
		call, fails = "maps.GetFloat($mm, \"k\")", !is("float64")
	case 21:
		call, fails = "maps.GetBool($mm, \"k\")", !is("bool")
	case 22:
		call, fails = "maps.GetString($mm, \"k\")", !is("string")
	case 23:
		call, fails = "slices.IntAt($a, 0)", !is("[]int")
	case 24:
		call = "slices." + choose("at", "StringAt", "FloatAt", "BoolAt") + "($a, 0)"
	case 25:
		call, fails = "slices.ReverseInts($a)", !is("[]int")
	case 26:
		call = "slices." + choose("rev", "ReverseStrings", "ReverseFloats") + "($a)"
	case 27:
		call = "json.Marshal($c)"
	case 28:
		call, fails = "rs.IndexBy($s)", s != "P" && s != "I" && s != "L"
		if s == "L" { // a slice is no key
			fails = true
		}
	default:
		call = "fs.IndexBy(\"F\")"
	}
	w := c21Where[sym.Choice("where", len(c21Where))]
	tpl := strings.Replace(w.tpl, "$C", "$"+call, 1)
	var opts []velty.Option
	stop := sym.Choice("panic", 2) == 1
	if stop {
		opts = append(opts, velty.PanicOnError(true))
	}
	p := velty.New(opts...)
	sym.Assert(p.RegisterFunction("any", func(x interface{}) string { return "" }) == nil, "registers")
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	out := st.Buffer.String()
	sym.Assert((err != nil) == fails && st.IsValid() == !fails, "an error is reported exactly when the built-in fails: "+tpl)
	sym.Assert(strings.HasPrefix(out, "A"), "what precedes is rendered: "+tpl)
	if fails {
		sym.Assert(strings.Contains(err.Error(), msg), "the message is reported: "+tpl)
	}
	if fails && stop {
		sym.Assert(out == "A", "nothing is rendered after the failing call: "+tpl)
	} else {
		sym.Assert(strings.HasSuffix(out, "Z"), "what follows is rendered: "+tpl)
	}
	sym.Reach("end")
}

type c21Fn struct {
	P byte
	F func()
}

// the error types functions may return: a named error whose text may be empty, and a typed nil that is an error nevertheless
type c21Err struct{ msg string }

func (e *c21Err) Error() string {
	if e == nil {
		return "nil error"
	}
	return e.msg
}

type c21Code int

func (c c21Code) Error() string { return "code " + strconv.Itoa(int(c)) }

type c21Svc struct {
	P   byte
	err error
}

func (s c21Svc) M0() (string, error)                            { return "v", s.err }
func (s *c21Svc) M1(a int) (int, error)                         { return a, s.err }
func (s c21Svc) M2(a int, b string) (*int, error)               { return &a, s.err }
func (s c21Svc) M3(a, b, c string) ([]string, error)            { return []string{a}, s.err }
func (s c21Svc) M4(a, b, c, d string) (map[string]int, error)   { return nil, s.err }
func (s c21Svc) M5(a, b, c, d, e string) (time.Duration, error) { return 1, s.err }
func (s c21Svc) MV(a ...int) (bool, error)                      { return len(a) > 1, s.err }
func (s c21Svc) MS(x string) (string, error)                    { return x, s.err }
func (s c21Svc) MP(x string) (*c21Rec, error)                   { return nil, s.err }
func (s c21Svc) MI(x string) (c21Rec, error)                    { return c21Rec{I: 1}, s.err }

// C21_signatures: functions and methods of any number of parameters and any result, failing with any kind of error.
func C21_signatures() {
	var e error
	kind := sym.Choice("err", 5)
	text := ""
	switch kind {
	case 1:
		text = sym.Str("msg", 1)
		e = errors.New(text)
	case 2:
		text = sym.Str("msg", 1)
		e = &c21Err{text}
	case 3:
		text = "code 7"
		e = c21Code(7)
	case 4:
		text = "boom"
		e = &c21Wrap{errors.New("boom")}
	}
	s := &c21Svc{P: 1, err: e}
	p := velty.New(velty.PanicOnError(sym.Choice("panic", 2) == 1))
	reg := func(name string, fn interface{}) {
		sym.Assert(p.RegisterFunction(name, fn) == nil, "function registers")
	}
	reg("f0", func() (string, error) { return "v", e })
	reg("f1", func(a int) (float64, error) { return 1, e })
	reg("f2", func(a int, b string) (bool, error) { return false, e })
	reg("f3", func(a, b, c string) (string, error) { return a, e })
	reg("f4", func(a, b, c, d string) (string, error) { return a, e })
	reg("f5", func(a, b, c, d, f string) (uint8, error) { return 1, e })
	reg("f7", func(a, b, c, d, f, g, h string) (c21Rec, error) { return c21Rec{}, e })
	reg("fv", func(a string, b ...string) (string, error) { return a, e })
	reg("fn", func(a string) ([]int, error) { return nil, e })
	reg("ft", func(a string) (time.Time, error) { return time.Time{}, e })
	reg("any", func(x interface{}) string { return "" })
	sym.Assert(p.RegisterFunctionKind("Kf", &c21KindFn{func(xs interface{}) (int, error) { return 1, e }}) == nil, "kind function registers")
	sym.Assert(p.RegisterStandaloneFunction("sa", &op.Function{Handler: func(a string) (string, error) { return a, e }}) == nil, "standalone registers")
	call := choose("call", "f0()", "f1($x)", "f2($x, $q)", "f3($q, $q, $q)", "f4($q, $q, $q, $q)", "f5($q, $q, $q, $q, $q)", "f7($q, $q, $q, $q, $q, $q, $q)", "fv($q)", "fv($q, $q)", "fv($q, $q, $q, $q, $q)", "fn($q)", "ft($q)",
		"s.M0()", "s.M1($x)", "s.M2($x, $q)", "s.M3($q, $q, $q)", "s.M4($q, $q, $q, $q)", "s.M5($q, $q, $q, $q, $q)", "s.MV()", "s.MV($x, $x)", "s.MS($q)", "s.MP($q)", "s.MI($q)", "w.M0()", "w.MS($q)", "ss[0].MS($q)", "h.S.MS($q)", "h.S.M1($x)", "two.Kf()", "sa($q)", "svc.MS($q)", "svc.M0()")
	w := c21Where[sym.Choice("where", len(c21Where))]
	tpl := strings.Replace(w.tpl, "$C", "${"+call+"}", 1)
	if strings.Contains(w.tpl, "= $C") || strings.Contains(w.tpl, "($C)") {
		tpl = strings.Replace(w.tpl, "$C", "$"+call, 1)
	}
	vars := []kv{v("x", 3), v("q", "q"), v("two", []int{1}), v("s", s), v("w", *s), v("ss", []c21Svc{*s}), v("h", struct {
		P byte
		S *c21Svc
	}{1, s}), v("svc", c21Iface(s))}
	for _, x := range vars {
		if x.name == "svc" {
			sym.Assert(p.DefineVariable("svc", reflect.TypeOf((*c21Iface)(nil)).Elem()) == nil, "variable can be defined")
			continue
		}
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	fails := e != nil
	sym.Assert((err != nil) == fails && st.IsValid() == !fails, "an error is reported exactly when the function fails: "+tpl)
	out := st.Buffer.String()
	sym.Assert(strings.HasPrefix(out, "A"), "what precedes is rendered: "+tpl)
	if fails {
		sym.Assert(strings.Contains(err.Error(), text), "the message is reported: "+tpl)
		sym.Assert(len(st.Errors) == 1, "one error is collected: "+tpl)
	}
	if fails && st.PanicOnError {
		sym.Assert(out == "A", "nothing is rendered after the failing call: "+tpl)
	} else {
		sym.Assert(strings.HasSuffix(out, "Z"), "what follows is rendered: "+tpl)
	}
	sym.Reach("end")
}

type c21KindFn struct{ fn interface{} }

func (k *c21KindFn) Kind() []reflect.Kind { return []reflect.Kind{reflect.Slice} }
func (k *c21KindFn) Handler() interface{} { return k.fn }

type c21Wrap struct{ err error }

func (w *c21Wrap) Error() string { return "wrapped " + w.err.Error() }
func (w *c21Wrap) Unwrap() error { return w.err }

type c21Iface interface {
	M0() (string, error)
	MS(x string) (string, error)
}

// C28_typed: the typed getters for maps of every value type: the value when it is present and of that type, an error otherwise.
func C28_typed() {
	n := sym.N(2, 3)
	k, q := sym.Str("k", n), sym.Str("q", n)
	i, f, b, s := sym.Int("i"), sym.Float64("f"), sym.Bool("b"), sym.Str("s", n)
	var m interface{}
	typ := ""
	ik, iq := sym.Int("ik"), sym.Int("iq")
	ints := false
	switch sym.Choice("map", 13) {
	case 0:
		m, typ = map[string]int{k: i}, "Int"
	case 1:
		m, typ = map[string]float64{k: f}, "Float"
	case 2:
		m, typ = map[string]bool{k: b}, "Bool"
	case 3:
		m, typ = map[string]string{k: s}, "String"
	case 4:
		m, typ = map[string]interface{}{k: i}, "Int"
	case 5:
		m, typ = map[string]interface{}{k: f}, "Float"
	case 6:
		m, typ = map[string]interface{}{k: b}, "Bool"
	case 7:
		m, typ = map[interface{}]interface{}{k: s}, "String"
	case 8:
		m, typ, ints = map[int]float64{ik: f}, "Float", true
	case 9:
		m, typ, ints = map[interface{}]bool{ik: b}, "Bool", true
	case 10:
		m = map[string]interface{}{k: nil}
	case 11:
		m = map[string]*int{k: &i}
	default:
		m = map[string]int64{k: int64(i)}
	}
	want := choose("get", "Int", "Float", "Bool", "String")
	key := "$q"
	present := k == q
	if ints {
		key, present = "$iq", ik == iq
	}
	p := velty.New()
	var seen []interface{}
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "registers")
	vars := []kv{v("m", m), v("q", q), v("iq", iq)}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	tpl := "<$see($maps.Get" + want + "($m, " + key + "))>"
	if sym.Choice("form", 2) == 1 {
		tpl = "<#set($g = $maps.Get" + want + "($m, " + key + "))$see($g)>"
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	ok := present && typ == want
	sym.Assert((err == nil) == ok && st.IsValid() == ok, "an error is reported unless the map contains the key with a value of the type: "+tpl)
	sym.Assert(st.Buffer.String() == "<.>" && len(seen) == 1, "the result is passed on: "+tpl)
	if !ok {
		i, f, b, s = 0, 0, false, ""
	}
	good := false
	switch y := seen[0].(type) {
	case int:
		good = want == "Int" && y == i
	case float64:
		good = want == "Float" && sym.SameFloat(y, f)
	case bool:
		good = want == "Bool" && y == b
	case string:
		good = want == "String" && y == s
	}
	sym.Assert(good, "the value of the entry, or the zero value, is returned: "+tpl)
	sym.Reach("end")
}

// C20_now: $time.Now is the current time as package functions tells it.
func C20_now() {
	old := functions.Now
	defer func() { functions.Now = old }()
	n := 0
	t0 := time.Unix(int64(sym.IntIn("t", 0, 3))+1700000000, 0).UTC()
	functions.Now = func() time.Time { n++; return t0 }
	p := velty.New()
	var seen []interface{}
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "registers")
	times := 1 + sym.Choice("times", 2)
	tpl := choose("tpl", "$see($time.Now())", "#set($y = $time.Now())$see($y)", "#if($time.Now())$see($time.Now())#end")
	if tpl[0] == '#' && tpl[1] == 'i' {
		tpl = "$see($time.Now())"
	}
	ex, ns, err := p.Compile([]byte(strings.Repeat(tpl, times)))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	sym.Assert(ex.Exec(st) == nil && len(seen) == times && n == times, "called as often as the template says")
	for _, x := range seen {
		y, ok := x.(time.Time)
		sym.Assert(ok && y == t0, "the current time is returned")
	}
	sym.Reach("end")
}

var c22Leaves = []string{"$x", "$s", "$t", "$f", "$nope", "$nope.A", "$r", "$r.Nope", "$r.N.B", "$nr.N.A", "$r.Nope(1)", "$nope(1)", "$xs", "$xs[9]", "$xs[$nope]", "$xs[$s]", "$m[$nope]", "$m[$xs]", "$m", "$e", "$e.A", "$ps", "$fn(1, \"a\")", "$fn($nope)", "$strings.Nope($s)", "$strings", "$no", "$rs[0]", "$rs[$nope].A", "$x.A", "$s[0]", "5", "\"a\"", "\"$nope\"", "true", "1.5", "$r.F($nope)", "$pr.Get($nope)", "$va()", "$r.M[\"z\"].Q"}

var c22Shapes = []string{"L", "!L", "(L)", "L + R", "R * L", "L == R", "R < L", "L && R", "R || !L", "!(L == R)", "(L + R) * L", "R == !L", "L == R && L != R", "-L"}

var c22Slots = []string{"#if(E)a#{else}b#end", "#if($t)#elseif(E)a#end", "#set($y = E)$y", "#set($x = E)", "#set($r.A = E)", "#set($nr.N.B = E)", "#set($pr.N.B = E)", "#set($xs[E] = 1)", "#foreach($i in E)$i#end", "#foreach($i in [E..3])$i#end", "#foreach($i in [0..E])$i#end",
	"#for($j = E; $j < 0; $j++)a#end", "#for($j = 0; E; $j++)a#end", "#for($j = 0; $j < 0; $j += E)a#end", "#for($j = 0; $j < 0; $x = E)a#end", "$fn(E, \"a\")", "$fn(1, E)", "$va(E, E)", "$va($va(E))", "$xs[E]", "$m[E]", "$rs[E].A", "$e[E]", "$s[E]", "$r.Get(E)", "$r.F(E)", "$strings.ToUpper(E)", "$maps.Get($m, E)", "$json.UnmarshalInto($s, E)", "$json.Marshal(E)", "$rs.IndexBy(E)", "#evaluate(E)", "${fn(E, $s)}", "$r.L[E]", "#set($m[E] = 1)", "#set($r.L[E] = 1)"}

// C22_operands: every operand, valid or not, in every expression at every place of a template.
func C22_operands() {
	slot := c22Slots[sym.Choice("slot", len(c22Slots))]
	shapes := len(c22Shapes)
	shape := c22Shapes[sym.Choice("shape", shapes)]
	leaf := c22Leaves[sym.Choice("leaf", len(c22Leaves))]
	right := ""
	if strings.Contains(shape, "R") {
		rs := []string{"$x", "$s", "$nope", "$t", "$f", "1", "\"a\"", "$r", "$xs", "$e", "$ps", "$m[\"a\"]"}
		right = rs[sym.Choice("right", sym.N(2, len(rs)))]
	}
	e := strings.Replace(strings.Replace(shape, "L", leaf, -1), "R", right, -1)
	c22Run(strings.Replace(slot, "E", e, -1), !strings.HasPrefix(slot, "#for("))
}
