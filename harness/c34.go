package main

import (
	"encoding/json"
	"errors"
	"html"
	"io"
	"reflect"
	"strconv"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	_ "veltyverif/model"
	"veltyverif/sym"
)

type c34Sub struct {
	X int
	S string `json:"s"`
}

type c34Rec struct {
	P     byte
	ID    int
	Name  string `json:"name"`
	Price float64
	Ok    bool
	Tags  []string
	Sub   *c34Rec `json:",omitempty"`
	V     c34Sub
	M     map[string]int
	U8    uint8
	Any   interface{}
	hid   int
}

func c34Type(name string) (reflect.Type, error) {
	switch name {
	case "Rec":
		return reflect.TypeOf(c34Rec{}), nil
	case "*Rec":
		return reflect.TypeOf(&c34Rec{}), nil
	case "[]Sub":
		return reflect.TypeOf([]c34Sub{}), nil
	case "[]*Sub":
		return reflect.TypeOf([]*c34Sub{}), nil
	case "[]int":
		return reflect.TypeOf([]int{}), nil
	case "[]string":
		return reflect.TypeOf([]string{}), nil
	case "map[string]int":
		return reflect.TypeOf(map[string]int{}), nil
	case "map[string]Sub":
		return reflect.TypeOf(map[string]c34Sub{}), nil
	case "int":
		return reflect.TypeOf(0), nil
	case "string":
		return reflect.TypeOf(""), nil
	case "bool":
		return reflect.TypeOf(false), nil
	case "float64":
		return reflect.TypeOf(0.0), nil
	case "*string":
		return reflect.TypeOf((*string)(nil)), nil
	case "any":
		return reflect.TypeOf((*interface{})(nil)).Elem(), nil
	case "uint8":
		return reflect.TypeOf(uint8(0)), nil
	}
	return nil, errors.New("unknown type " + name)
}

// c34View is a template that renders everything that can be read from a value of the type.
var c34View = map[string]string{
	"Rec":            "$a.ID,$a.Name,$a.Price,$a.Ok,#foreach($t in $a.Tags)($t)#end,$a.Sub.ID,$a.Sub.Name,$a.V.X,$a.V.S,$a.M.HasKey(\"k\"),$a.P,$a.U8",
	"*Rec":           "$a.ID,$a.Name,$a.Price,$a.Ok,#foreach($t in $a.Tags)($t)#end,$a.Sub.ID,$a.Sub.Name,$a.V.X,$a.V.S,$a.M.HasKey(\"k\"),$a.P,$a.U8",
	"[]Sub":          "#foreach($e in $a)<$e.X$e.S>#end",
	"[]*Sub":         "#foreach($e in $a)<$e.X$e.S>#end",
	"[]int":          "#foreach($e in $a)<$e>#end",
	"[]string":       "#foreach($e in $a)<$e>#end",
	"map[string]int": "$a.HasKey(\"k\")$a[\"k\"]",
	"map[string]Sub": "$a.HasKey(\"k\")",
	"int":            "$a,$a#if($a > 2)y#end",
	"uint8":          "$a,$a",
	"string":         "$a,$a#if($a == \"a\")y#end",
	"bool":           "$a#if($a)y#end",
	"float64":        "$a,$a",
	"*string":        "$a",
	"any":            "$a",
}

func c34Recs(a *c34Rec, esc func(string) string) string {
	if a == nil {
		a = &c34Rec{}
	}
	w := strconv.Itoa(a.ID) + "," + esc(a.Name) + "," + strconv.FormatFloat(a.Price, 'f', -1, 64) + "," + strconv.FormatBool(a.Ok) + ","
	for _, t := range a.Tags {
		w += "(" + esc(t) + ")"
	}
	sub := a.Sub
	if sub == nil {
		sub = &c34Rec{}
	}
	_, has := a.M["k"]
	return w + "," + strconv.Itoa(sub.ID) + "," + esc(sub.Name) + "," + strconv.Itoa(a.V.X) + "," + esc(a.V.S) + "," + strconv.FormatBool(has) + "," + strconv.Itoa(int(a.P)) + "," + strconv.Itoa(int(a.U8))
}

// c34Want is the text the view of a value has.
func c34Want(v interface{}, name string, esc func(string) string) string {
	w := ""
	switch x := v.(type) {
	case c34Rec:
		return c34Recs(&x, esc)
	case *c34Rec:
		return c34Recs(x, esc)
	case []c34Sub:
		for _, e := range x {
			w += "<" + strconv.Itoa(e.X) + esc(e.S) + ">"
		}
		return w
	case []*c34Sub:
		for _, e := range x {
			if e == nil {
				e = &c34Sub{}
			}
			w += "<" + strconv.Itoa(e.X) + esc(e.S) + ">"
		}
		return w
	case []int:
		for _, e := range x {
			w += "<" + strconv.Itoa(e) + ">"
		}
		return w
	case []string:
		for _, e := range x {
			w += "<" + esc(e) + ">"
		}
		return w
	case map[string]int:
		k, ok := x["k"]
		return strconv.FormatBool(ok) + strconv.Itoa(k)
	case map[string]c34Sub:
		_, ok := x["k"]
		return strconv.FormatBool(ok)
	case int:
		w = strconv.Itoa(x) + "," + strconv.Itoa(x)
		if x > 2 {
			w += "y"
		}
		return w
	case uint8:
		return esc(c33Text(reflect.TypeOf(x), x) + "," + c33Text(reflect.TypeOf(x), x))
	case bool:
		if x {
			return "truey"
		}
		return "false"
	case float64:
		w = strconv.FormatFloat(x, 'f', -1, 64)
		return w + "," + w
	case string:
		w = esc(x) + "," + esc(x)
		if x == "a" {
			w += "y"
		}
		return w
	case *string:
		return esc(c33Text(reflect.TypeOf(x), x))
	}
	panic("no view")
}

// c34Body is a JSON text, or something close to one, for the type.
func c34Body(name string) string {
	num := func(n string) string { return sym.StrOf(n, 1, sym.N(2, 3), "019-.e") }
	str := func(n string) string { return "\"" + sym.StrOf(n, 0, sym.N(2, 3), "ak<\\n\"") + "\"" }
	switch name {
	case "Rec", "*Rec":
		switch sym.Choice("shape", 9) {
		case 0:
			return "{\"ID\":" + num("n") + ",\"name\":\"x\"}"
		case 1:
			return "{\"name\" : " + str("s") + ", \"Ok\":true,\"Price\":1.25}"
		case 2:
			return "{\"Tags\":[" + str("s") + ",\"b\"],\"id\":4}"
		case 3:
			return " {\"Sub\":{\"ID\":" + num("n") + ",\"name\":\"q\"},\"ID\":3,\"hid\":9}\n"
		case 4:
			return "{\"V\":{\"X\":5,\"s\":" + str("s") + "},\"M\":{\"k\":1},\"unknown\":[{}],\"Any\":{\"a\":[1]},\"U8\":200}"
		case 5:
			return "{\"ID\":1,\"Sub\":null,\"Tags\":null,\"M\":{\"z\":2}}" + sym.StrOf("tail", 0, 1, " ,}")
		case 6:
			return "null"
		case 7:
			return "{\"ID\":\"1\"}"
		default:
			return "{\"U8\":" + []string{"0", "255", "256", "-1", "1e1", "1.0", "00", "7 "}[sym.Choice("u8", 8)] + "}"
		}
	case "[]Sub", "[]*Sub":
		return []string{"[]", "null", "[{\"X\":1,\"s\":\"a\"},{\"X\":2}]", "[{\"s\":\"<\"},null]", "[1]", "{}"}[sym.Choice("shape", 6)]
	case "[]int":
		if sym.Choice("shape", 2) == 0 {
			return "[" + num("n") + ",7]"
		}
		return []string{"[]", "null", "[1,2,3,4,5]", "[1.5]", "[1,]", ""}[sym.Choice("text", 6)]
	case "[]string":
		return "[" + str("s") + ",\"z\"]"
	case "map[string]int":
		if sym.Choice("shape", 2) == 0 {
			return "{" + str("s") + ":" + "5}"
		}
		return []string{"{}", "null", "{\"k\":3,\"k\":4}", "{\"k\":\"v\"}", "[]", "{\"j\":1,\"k\":2}"}[sym.Choice("text", 6)]
	case "map[string]Sub":
		return []string{"{}", "null", "{\"k\":{\"X\":1}}", "{\"j\":{}}", "{\"k\":1}"}[sym.Choice("text", 5)]
	case "string", "*string":
		if sym.Choice("shape", 2) == 0 {
			return str("s")
		}
		return []string{"null", "12", " \"a\" ", "\"a", "\"\\u003c\"", "\"\\q\""}[sym.Choice("text", 6)]
	case "bool":
		return sym.StrOf("t", 0, 1, " t") + []string{"true", "false", "null", "rue", "1"}[sym.Choice("text", 5)]
	case "any":
		return []string{"\"t<\"", "12", "1.5", "true", "{\"a\":[1,\"<\"]}", "[null,{}]", "null", "nul"}[sym.Choice("text", 8)]
	}
	return num("n")
}

var c34Names = []string{"Rec", "*Rec", "[]Sub", "[]*Sub", "[]int", "[]string", "map[string]int", "map[string]Sub", "int", "uint8", "string", "bool", "float64", "*string", "any"}

type c34Reader struct {
	s   string
	i   int
	err error
}

func (r *c34Reader) Read(b []byte) (int, error) {
	if r.i >= len(r.s) {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := copy(b[:1], r.s[r.i:])
	r.i += n
	return n, nil
}

type c34Holder struct {
	P  byte
	S  string
	PS *string
	By []byte
	Rd *c34Reader
	A  interface{}
}

func c34Plan(tpl string, esc bool, vars []kv) (*est.Execution, func() *est.State, error) {
	p := velty.New(velty.EscapeHTML(esc), velty.TypeParser(c34Type))
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	return p.Compile([]byte(tpl))
}

// C34_unmarshal: any body, given in any way, into any type.
func C34_unmarshal() {
	name := c34Names[sym.Choice("type", len(c34Names))]
	typ, _ := c34Type(name)
	body := c34Body(name)
	esc := false
	if name == "Rec" || name == "string" || name == "[]string" || name == "any" {
		esc = sym.Choice("esc", 2) == 1
	}
	escape := func(s string) string {
		if esc {
			return html.EscapeString(s)
		}
		return s
	}
	srcs := []string{"$b", "$pb", "$by", "$rd", "$h.S", "$ph.PS", "$ph.By", "$h.Rd", "$bs[0]", "$ph.Get()", "$m[\"k\"]", "$e"}
	src := srcs[sym.Choice("src", len(srcs))]
	call := "$json.UnmarshalInto(" + src + ", \"" + name + "\")"
	use := "#set($a = " + call + ")" + c34View[name]
	tpl, times := use, 1
	switch sym.Choice("where", 3) {
	case 1:
		tpl = "#if($t)" + use + "#end"
	case 2:
		if src != "$rd" && src != "$h.Rd" {
			tpl, times = "#foreach($q in $two)"+use+"#end", 2
		}
	}
	want := reflect.New(typ)
	wantErr := json.Unmarshal([]byte(body), want.Interface())
	b2 := body
	h := c34Holder{P: 1, S: body, PS: &b2, By: []byte(body), Rd: &c34Reader{s: body}, A: body}
	rd := &c34Reader{s: body}
	vars := []kv{v("b", body), v("pb", &b2), v("by", []byte(body)), v("rd", rd), v("h", h), v("ph", &h), v("bs", []string{body, "x"}), v("m", map[string]string{"k": body}), v("e", reflect.TypeOf((*interface{})(nil)).Elem()), v("t", true), v("two", []int{1, 2})}
	ex, ns, err := c34Plan(tpl, esc, vars)
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	vars[8].val = interface{}(body)
	set(st, vars...)
	err = ex.Exec(st)
	sym.Assert((err != nil) == (wantErr != nil), "a body that can not be decoded is reported, and only that: "+name)
	if err == nil {
		one := ""
		if name == "any" {
			one = escape(c33Text(typ, want.Elem().Interface()))
		} else {
			one = c34Want(want.Elem().Interface(), name, escape)
		}
		w := one
		if times == 2 {
			w += one
		}
		sym.Assert(st.Buffer.String() == w, "the value is what the body holds: "+tpl)
		sym.Observe("out", w)
	}
	sym.Assert(b2 == body && string(h.By) == body, "the body is unchanged")
	sym.Reach("end")
}

func (h *c34Holder) Get() []byte { return h.By }

// C34_source: a body that is missing, can not be read or is not a text.
func C34_source() {
	id := []string{"1", "15", "-3"}[sym.Choice("id", 3)]
	body := "{\"ID\":" + id + "}"
	fails := true
	var tpl string
	pre := []kv{v("np", (*string)(nil)), v("n", sym.Int("i")), v("f", 1.5), v("xs", []int{1}), v("bad", &c34Reader{s: body, err: errors.New("broken")}), v("good", &c34Reader{s: body}), v("empty", ""), v("nb", []byte(nil)), v("b", body), v("any", reflect.TypeOf((*interface{})(nil)).Elem())}
	src := []string{"$np", "$n", "$f", "$xs", "$bad", "$empty", "$nb", "$any", "$good", "$b"}[sym.Choice("src", 10)]
	switch src {
	case "$good", "$b":
		fails = false
	}
	tpl = "#set($a = $json.UnmarshalInto(" + src + ", \"*Rec\"))[$a.ID]"
	ex, ns, err := c34Plan(tpl, false, pre)
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, pre[:9]...)
	if src == "$any" && sym.Choice("dyn", 2) == 1 {
		set(st, v("any", 5))
	}
	err = ex.Exec(st)
	sym.Assert((err != nil) == fails, "a body that can not be read is reported: "+src)
	if !fails {
		sym.Assert(st.Buffer.String() == "["+id+"]", "the value is what the body holds")
	}
	sym.Reach("end")
}

// C34_types: types the parser does not know, names that are computed, several types in one template.
func C34_types() {
	vars := []kv{v("b", "5"), v("t", "int"), v("u", "nope"), v("s", "\"x\""), v("l", "[1,2]")}
	run := func(opts []velty.Option, tpl string) (string, error, error) {
		p := velty.New(opts...)
		for _, x := range vars {
			sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
		}
		ex, ns, err := p.Compile([]byte(tpl))
		if err != nil {
			return "", err, nil
		}
		st := ns()
		set(st, vars...)
		err = ex.Exec(st)
		return st.Buffer.String(), nil, err
	}
	with := []velty.Option{velty.TypeParser(c34Type)}
	switch sym.Choice("case", 8) {
	case 0:
		_, cerr, _ := run(with, "#set($a = $json.UnmarshalInto($b, \"nope\"))$a")
		sym.Assert(cerr != nil, "an unknown type is rejected")
	case 1:
		_, cerr, xerr := run(nil, "#set($a = $json.UnmarshalInto($b, \"int\"))$a")
		sym.Assert(cerr != nil || xerr != nil, "a missing parser is reported")
	case 2:
		_, cerr, xerr := run(nil, "$json.UnmarshalInto($b, $t)")
		sym.Assert(cerr != nil || xerr != nil, "a missing parser is reported")
	case 3:
		out, cerr, xerr := run(with, "$json.UnmarshalInto($b, $t)")
		sym.Assert(cerr == nil && xerr == nil && out == "5", "a type name in a variable")
	case 4:
		_, cerr, xerr := run(with, "$json.UnmarshalInto($b, $u)")
		sym.Assert(cerr != nil || xerr != nil, "an unknown type in a variable is reported")
	case 5:
		out, cerr, xerr := run(with, "#set($a = $json.UnmarshalInto($b, \"int\"))#set($c = $json.UnmarshalInto($s, \"string\"))#set($d = $json.UnmarshalInto($l, \"[]int\"))$a$c#foreach($e in $d)<$e>#end$a")
		sym.Assert(cerr == nil && xerr == nil && out == "5x<1><2>5", "several types in one template")
	case 6:
		_, cerr, _ := run(with, choose("tpl", "$json.UnmarshalInto($b)", "$json.UnmarshalInto($b, \"int\", 1)", "$json.UnmarshalInto()", "$json.Nope($b)"))
		sym.Assert(cerr != nil, "a wrong number of arguments is rejected")
	default:
		out, cerr, xerr := run(with, "#set($a = $json.UnmarshalInto($b, \"int\"))#set($b = \"7\")#set($c = $json.UnmarshalInto($b, \"int\"))$a$c#set($a = $a + $c)$a")
		sym.Assert(cerr == nil && xerr == nil && out == "5712", "the value is a copy")
	}
	sym.Reach("end")
}

// C34_marshal: the text of every value, from every kind of place.
func C34_marshal() {
	s := sym.StrOf("s", 0, sym.N(1, 2), "a<\"\n\xff")
	in := c33In{X: sym.Int("x"), S: s}
	pi := 5
	rec := c34Rec{P: 1, ID: 12, Name: s, Price: 2.5, Tags: []string{s, "t"}, V: c34Sub{X: 3, S: s}, M: map[string]int{"k": 1}, Any: in}
	vals := []interface{}{sym.Int("i"), s, sym.Bool("b"), 2.5, []string{s, "b"}, []int{1, sym.Int("j")}, map[string]int{"b": 2, "a": 1}, in, &in, (*c33In)(nil), &pi, (*string)(nil), []byte(s), uint8(7), int64(-9), []interface{}{1, s, nil}, rec, &rec, []c33In{in}, [2]bool{true, false}}
	k := sym.Choice("value", len(vals))
	val := vals[k]
	typ := reflect.TypeOf(val)
	esc := sym.Choice("esc", 2) == 1
	xs := reflect.MakeSlice(reflect.SliceOf(typ), 2, 2)
	xs.Index(1).Set(reflect.ValueOf(val))
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), typ))
	m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(val))
	b, err := json.Marshal(val)
	sym.Assert(err == nil, "the value has a JSON text")
	want := string(b)
	if esc {
		want = html.EscapeString(want)
	}
	src := choose("src", "$x", "$xs[1]", "$m[\"k\"]", "$e", "$id($x)")
	tpl := "[$json.Marshal(" + src + ")]"
	switch sym.Choice("where", 3) {
	case 1:
		tpl = "#set($t = $json.Marshal(" + src + "))[$t]"
	case 2:
		tpl = "[#foreach($q in $xs)#set($t = $json.Marshal(" + src + "))#end$t]"
	}
	p := velty.New(velty.EscapeHTML(esc))
	vars := []kv{v("a", 1), v("x", val), v("xs", xs.Interface()), v("m", m.Interface()), v("e", reflect.TypeOf((*interface{})(nil)).Elem())}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	sym.Assert(p.RegisterFunction("id", func(x interface{}) (string, error) { return "f", nil }) == nil, "function registers")
	if src == "$id($x)" {
		want = html.EscapeString("\"f\"")
		if !esc {
			want = "\"f\""
		}
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	vars[4].val = val
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "execution succeeds: "+tpl)
	sym.Assert(st.Buffer.String() == "["+want+"]", "the JSON text of the value: "+tpl)
	sym.Reach("end")
}

// C34_unmarshalable: values without a JSON text are reported.
func C34_unmarshalable() {
	f := sym.Float64("f")
	p := velty.New()
	vars := []kv{v("f", f), v("fs", []float64{1, f}), v("fn", func() int { return 1 }), v("ch", make(chan int)), v("m", map[bool]int{true: 1}), v("ok", 1)}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	src := choose("src", "$f", "$fs", "$fn", "$ch", "$m", "$ok")
	_, want := json.Marshal(map[string]interface{}{"$f": f, "$fs": []float64{1, f}, "$fn": vars[2].val, "$ch": vars[3].val, "$m": vars[4].val, "$ok": 1}[src])
	ex, ns, err := p.Compile([]byte("#set($t = $json.Marshal(" + src + "))."))
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, vars...)
	sym.Assert((ex.Exec(st) != nil) == (want != nil), "a value without a JSON text is reported: "+src)
	sym.Reach("end")
}

// C34_round: what was marshalled is read back.
func C34_round() {
	s := sym.StrOf("s", 0, sym.N(2, 3), "a<\"\\\n")
	b := sym.Bool("b")
	r := c34Rec{ID: []int{0, -5, 1 << 40}[sym.Choice("id", 3)], Name: s, Ok: b, Tags: []string{s, ""}, V: c34Sub{S: s}, M: map[string]int{s: 1}}
	if sym.Choice("sub", 2) == 1 {
		r.Sub = &c34Rec{ID: 3, Name: s}
	}
	tpl := "#set($j = $json.Marshal($r))#set($a = $json.UnmarshalInto($j, \"Rec\"))" + c34View["Rec"]
	if sym.Choice("nested", 2) == 1 {
		tpl = "#set($a = $json.UnmarshalInto($json.Marshal($r), \"Rec\"))" + c34View["Rec"]
	}
	ex, ns, err := c34Plan(tpl, false, []kv{v("r", r)})
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, v("r", r))
	sym.Assert(ex.Exec(st) == nil, "execution succeeds")
	sym.Assert(st.Buffer.String() == c34Recs(&r, func(s string) string { return s }), "the value is read back")
	sym.Reach("end")
}
