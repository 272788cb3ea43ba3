package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"reflect"
	"strconv"
	"time"

	"github.com/viant/velty"
	_ "veltyverif/model"
	"veltyverif/sym"
)

type c33In struct {
	X int
	S string `json:"s,omitempty"`
	N *c33In `json:",omitempty"`
	h int
}

type c33Rec struct {
	P   byte
	I   int
	MI  c27Int
	MS  c27Str
	MB  c27Bool
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	L   []int
	SS  []string
	RS  []c33In
	PS  []*c33In
	B   []byte
	M   map[string]int
	MN  map[int]string
	A   [2]int
	N   c33In
	PN  *c33In
	PI  *int
	PS1 *string
	PB  *bool
	PF  *float64
	PU8 *uint8
	E   interface{}
	LE  []interface{}
	T   time.Time
	PT  *time.Time
	Q   byte
}

var c33Fields = []string{"I", "MI", "MS", "MB", "I8", "I16", "I32", "I64", "U", "U8", "U16", "U32", "U64", "F32", "L", "SS", "RS", "PS", "B", "M", "MN", "A", "N", "PN", "PI", "PS1", "PB", "PF", "PU8", "E", "LE", "T", "PT"}

type c33Named struct{ s string }

func (n c33Named) String() string { return "<" + n.s + ">" }

// c33Make fills the field f with a symbolic value, nil included.
func c33Make(r *c33Rec, f string) {
	n := sym.N(1, 2)
	abc := "a\"<\\\n\x01\xff"
	if !sym.Thorough() {
		abc = "a\"<\n\xff"
	}
	str := func(name string) string { return sym.StrOf(name, n, n, abc) }
	in := func(name string) c33In {
		x := c33In{X: sym.Int(name), S: "\"<", h: 3}
		if f == "N" || f == "PN" || sym.Thorough() {
			x.S = str(name + "s")
		}
		if (f == "N" || f == "PN" || sym.Thorough()) && sym.Choice(name+"n", 2) == 1 {
			x.N = &c33In{X: sym.Int(name + "x")}
		}
		return x
	}
	none := func() bool { return sym.Choice("nil", 2) == 1 }
	switch f {
	case "I":
		r.I = sym.Int("k")
	case "MI":
		r.MI = c27Int(sym.Int("k"))
	case "MS":
		r.MS = c27Str(str("k"))
	case "MB":
		r.MB = c27Bool(sym.Bool("k"))
	case "I8":
		r.I8 = sym.Int8("k")
	case "I16":
		r.I16 = sym.Int16("k")
	case "I32":
		r.I32 = sym.Int32("k")
	case "I64":
		r.I64 = sym.Int64("k")
	case "U":
		r.U = sym.Uint("k")
	case "U8":
		r.U8 = sym.Uint8("k")
	case "U16":
		r.U16 = sym.Uint16("k")
	case "U32":
		r.U32 = sym.Uint32("k")
	case "U64":
		r.U64 = sym.Uint64("k")
	case "F32":
		r.F32 = []float32{0, 1.5, -2.25, 1e-7, 3e21, 16777216, 0.1}[sym.Choice("k", 7)]
	case "L":
		if !none() {
			r.L = []int{sym.Int("a"), sym.Int("b"), sym.Int("c")}[:sym.Choice("len", 4)]
		}
	case "SS":
		if !none() {
			r.SS = []string{str("a"), str("b")}[:sym.Choice("len", 3)]
		}
	case "RS":
		if !none() {
			r.RS = []c33In{in("a"), in("b")}[:sym.Choice("len", 3)]
		}
	case "PS":
		if !none() {
			a := in("a")
			r.PS = []*c33In{&a, nil, &a}
		}
	case "B":
		if !none() {
			r.B = []byte("a<\x00b")[:sym.Choice("len", 5)]
		}
	case "M":
		if !none() {
			r.M = map[string]int{}
			if l := sym.Choice("len", 3); l > 0 {
				r.M["b"] = sym.Int("a")
				if l > 1 {
					r.M["a<"] = sym.Int("b")
				}
			}
		}
	case "MN":
		if !none() {
			r.MN = map[int]string{2: str("a"), 10: str("b")}
		}
	case "A":
		r.A = [2]int{sym.Int("a"), sym.Int("b")}
	case "N":
		r.N = in("a")
	case "PN":
		if !none() {
			a := in("a")
			r.PN = &a
		}
	case "PI":
		if !none() {
			a := sym.Int("a")
			r.PI = &a
		}
	case "PS1":
		if !none() {
			a := str("a")
			r.PS1 = &a
		}
	case "PB":
		if !none() {
			a := sym.Bool("a")
			r.PB = &a
		}
	case "PF":
		if !none() {
			a := []float64{0, 1.5, -2.25, 1e-7, 3e21, 0.1}[sym.Choice("k", 6)]
			r.PF = &a
		}
	case "PU8":
		if !none() {
			a := sym.Uint8("a")
			r.PU8 = &a
		}
	case "E":
		switch sym.Choice("dyn", 30) {
		case 0:
			r.E = sym.Int("k")
		case 1:
			r.E = str("k")
		case 2:
			r.E = sym.Bool("k")
		case 3:
			r.E = sym.Float64("k")
		case 4:
			r.E = sym.Int64("k")
		case 5:
			r.E = sym.Uint8("k")
		case 6:
			r.E = c33Time()
		case 7:
		case 8:
			a := c33Time()
			r.E = &a
		case 9:
			r.E = (*time.Time)(nil)
		case 10:
			r.E = []string{str("k"), "<b>"}
		case 11:
			r.E = []interface{}{sym.Int("k"), "<b>", nil, true}
		case 12:
			r.E = map[string]int{"k<": sym.Int("k")}
		case 13:
			r.E = c33In{X: sym.Int("k"), S: "<i>"}
		case 14:
			r.E = c27Int(sym.Int("k"))
		case 15:
			r.E = c27Str(str("k"))
		case 16:
			r.E = c33Named{str("k")}
		case 17:
			r.E = errors.New(str("k"))
		case 18:
			r.E = sym.Int8("k")
		case 19:
			r.E = []float32{0, 1.5, -2.25, 1e-7, 3e21, 16777216, 0.1, 3.4e38}[sym.Choice("k", 8)]
		case 20:
			r.E = sym.Int16("k")
		case 21:
			r.E = sym.Int32("k")
		case 22:
			r.E = sym.Uint("k")
		case 23:
			r.E = sym.Uint16("k")
		case 24:
			r.E = sym.Uint32("k")
		case 25:
			r.E = sym.Uint64("k")
		case 26:
			r.E = [2]int{sym.Int("k"), 5}
		case 27:
			r.E = c27Flt([]float64{0, 1.5, -2.25, 1e-7, 3e21, 0.1}[sym.Choice("k", 6)])
		case 28:
			r.E = c27Bool(sym.Bool("k"))
		default:
			r.E = (*c33In)(nil)
		}
	case "LE":
		if !none() {
			r.LE = []interface{}{sym.Int("a"), str("b"), nil, sym.Bool("c"), in("d")}
		}
	case "T":
		if !none() {
			r.T = c33Time()
		}
	case "PT":
		if !none() {
			a := c33Time()
			r.PT = &a
		}
	}
}

func c33Time() time.Time {
	switch sym.Choice("time", 5) {
	case 1:
		return time.Unix(1700000000, 123456789).In(time.FixedZone("", 3600))
	case 2:
		return time.Date(2023, 2, 28, 23, 59, 59, 0, time.FixedZone("X", -5*3600-1800))
	case 3:
		return time.Time{}
	case 4:
		return time.Date(1, 1, 1, 0, 0, 0, 500, time.FixedZone("", 0))
	}
	return time.Unix(1700000000, 5).UTC()
}

// c33Text is the text of a value of a static type.
func c33Text(typ reflect.Type, val interface{}) string {
	switch typ.Kind() {
	case reflect.Int:
		return strconv.Itoa(int(reflect.ValueOf(val).Int()))
	case reflect.String:
		return reflect.ValueOf(val).String()
	case reflect.Bool:
		return strconv.FormatBool(reflect.ValueOf(val).Bool())
	case reflect.Float64:
		return strconv.FormatFloat(reflect.ValueOf(val).Float(), 'f', -1, 64)
	case reflect.Interface:
		switch x := val.(type) {
		case float64:
			return strconv.FormatFloat(x, 'f', -1, 64)
		case time.Time:
			return x.Format(time.RFC3339)
		case *time.Time:
			if x != nil {
				return x.Format(time.RFC3339)
			}
		}
		return fmt.Sprintf("%v", val)
	}
	b, err := json.Marshal(val)
	if err != nil {
		return ""
	}
	return string(b)
}

var c33Src = []string{"$x", "$r.F", "${pr.F}", "$rs[1].F", "$prs[0].F", "$o.R.F", "$o.PR.F", "$xs[1]", "$m[\"k\"]", "#foreach($e in $xs)$e#end", "#foreach($e in $rs)$e.F#end", "#set($y = $r.F)$y", "$gr().F"}

type c33Outer struct {
	P  byte
	R  c33Rec
	PR *c33Rec
}

// C33_text: a value of every kind at every kind of place.
func C33_text() {
	f := c33Fields[sym.Choice("field", len(c33Fields))]
	src := c33Src[sym.Choice("src", len(c33Src)-1)]
	esc := sym.Choice("esc", 2) == 1
	r := &c33Rec{P: 1, Q: 2}
	c33Make(r, f)
	fv := reflect.ValueOf(r).Elem().FieldByName(f)
	typ, val := fv.Type(), fv.Interface()
	xs := reflect.MakeSlice(reflect.SliceOf(typ), 2, 2)
	xs.Index(1).Set(fv)
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), typ))
	m.SetMapIndex(reflect.ValueOf("k"), fv)
	zero := c33Text(typ, reflect.Zero(typ).Interface())
	want := c33Text(typ, val)
	if src[0] == '#' && src[1] == 'f' {
		want = zero + want
	}
	if esc {
		want = html.EscapeString(want)
	}
	tpl := ""
	for i := 0; i < len(src); i++ {
		if src[i] == 'F' {
			tpl += f
		} else {
			tpl += src[i : i+1]
		}
	}
	p := velty.New(velty.EscapeHTML(esc))
	vars := []kv{v("a", 1), v("x", typ), v("r", *r), v("pr", r), v("rs", []c33Rec{{}, *r}), v("prs", []*c33Rec{r}), v("o", c33Outer{1, *r, r}), v("xs", xs.Interface()), v("m", m.Interface()), v("b", true)}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "defined")
	}
	ex, ns, err := p.Compile([]byte("[" + tpl + "]"))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	vars[1].val = val
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == "["+want+"]", "the text of "+f+" at "+src)
	sym.Reach("end")
}

type c33Deep struct {
	K string            `json:"k"`
	V c33In             `json:"v"`
	M map[string]string `json:"m,omitempty"`
	L []string
}

// C33_composite: texts with bytes JSON is made of, inside composites of any depth.
func C33_composite() {
	s := sym.StrOf("s", sym.N(3, 4), sym.N(3, 4), "\": ,{}[]\na\\"[:sym.N(6, 11)])
	d := c33Deep{K: "k", V: c33In{X: 1, S: "t"}, L: []string{"l"}}
	switch sym.Choice("at", 4) {
	case 0:
		d.K = s
	case 1:
		d.V.S = s
	case 2:
		d.M = map[string]string{s: s}
	default:
		d.L = []string{"", s, " "}
	}
	var val interface{}
	switch sym.Choice("as", 4) {
	case 0:
		val = d
	case 1:
		val = &d
	case 2:
		val = []c33Deep{d, d}
	default:
		val = map[string]*c33Deep{"x": &d, "y": nil}
	}
	b, err := json.Marshal(val)
	sym.Assert(err == nil, "the value has a JSON text")
	sym.Assert(render("[$x]", v("x", val)) == "["+string(b)+"]", "a composite is rendered as its JSON text")
	sym.Reach("end")
}
