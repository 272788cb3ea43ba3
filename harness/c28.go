package main

import (
	"reflect"
	"strconv"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c28Num struct {
	neg bool
	mag uint64
}

// c28Int makes a symbolic integer of a kind together with its mathematical value.
func c28Int(kind int, name string, ptr bool) (interface{}, c28Num) {
	s := func(i int64) c28Num {
		if i < 0 {
			return c28Num{true, uint64(-i)}
		}
		return c28Num{false, uint64(i)}
	}
	u := func(i uint64) c28Num { return c28Num{false, i} }
	pick := func(v, p interface{}) interface{} {
		if ptr {
			return p
		}
		return v
	}
	switch kind {
	case 0:
		k := sym.Int(name)
		return pick(k, &k), s(int64(k))
	case 1:
		k := sym.Int8(name)
		return pick(k, &k), s(int64(k))
	case 2:
		k := sym.Int16(name)
		return pick(k, &k), s(int64(k))
	case 3:
		k := sym.Int32(name)
		return pick(k, &k), s(int64(k))
	case 4:
		k := sym.Int64(name)
		return pick(k, &k), s(k)
	case 5:
		k := sym.Uint(name)
		return pick(k, &k), u(uint64(k))
	case 6:
		k := sym.Uint8(name)
		return pick(k, &k), u(uint64(k))
	case 7:
		k := sym.Uint16(name)
		return pick(k, &k), u(uint64(k))
	case 8:
		k := sym.Uint32(name)
		return pick(k, &k), u(uint64(k))
	default:
		k := sym.Uint64(name)
		return pick(k, &k), u(k)
	}
}

func (a c28Num) eq(b c28Num) bool { return a.neg == b.neg && a.mag == b.mag }

// c28Forms are the ways to look a key up; X is the map, the first text is for a key that is present.
var c28Forms = []string{"$m[$q]", "$m.HasKey($q)", "$maps.Has($m, $q)", "$maps.GetInt($m, $q)", "#if($m.HasKey($q))yes$m[$q]#{else}no#end", "#set($e = $m[$q])$e", "$maps.Get($m, $q)", "$h.M[$q]", "$h.M.HasKey($q)"}

func c28Want(form string, present bool, val int) (want string, fails bool) {
	n := strconv.Itoa(val)
	switch form {
	case c28Forms[0], c28Forms[5], c28Forms[7]:
		if present {
			return n, false
		}
		return "0", false
	case c28Forms[1], c28Forms[2], c28Forms[8]:
		return strconv.FormatBool(present), false
	case c28Forms[3]:
		if present {
			return n, false
		}
		return "0", true
	case c28Forms[4]:
		if present {
			return "yes" + n, false
		}
		return "no", false
	default: // an interface
		if present {
			return n, false
		}
		return "<nil>", false
	}
}

func c28Check(m interface{}, q interface{}, present bool, val int, what string) {
	form := c28Forms[sym.Choice("form", len(c28Forms))]
	h := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "P", Type: reflect.TypeOf(byte(0))}, {Name: "M", Type: reflect.TypeOf(m)}})).Elem()
	h.Field(1).Set(reflect.ValueOf(m))
	vars := []kv{v("m", m), v("q", q), v("h", h.Interface())}
	ex, ns := plan("<"+form+">", nil, vars...)
	st := ns()
	set(st, vars...)
	want, fails := c28Want(form, present, val)
	err := ex.Exec(st)
	sym.Assert((err != nil) == fails, "an error is reported for a missing key only where a value is required: "+form+what)
	sym.Assert(st.Buffer.String() == "<"+want+">", "the entry is found iff the map contains the key: "+form+what)
	sym.Reach("end")
}

// C28_ints: maps with keys of every integer kind looked up by keys of every integer kind.
func C28_ints() {
	mk, qk := sym.Choice("mk", 10), sym.Choice("qk", 10)
	ptr := sym.Choice("ptr", 2) == 1
	k1, n1 := c28Int(mk, "k1", false)
	k2, n2 := c28Int(mk, "k2", false)
	sym.Assume(!n1.eq(n2))
	q, nq := c28Int(qk, "q", ptr)
	a, b := sym.Int("a"), sym.Int("b")
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(k1), reflect.TypeOf(a)))
	m.SetMapIndex(reflect.ValueOf(k1), reflect.ValueOf(a))
	m.SetMapIndex(reflect.ValueOf(k2), reflect.ValueOf(b))
	present, val := nq.eq(n1) || nq.eq(n2), b
	if nq.eq(n1) {
		val = a
	}
	c28Check(m.Interface(), q, present, val, "")
}

// C28_iface: maps with keys of an interface type; a key of another integer type is found when it is stored as int.
func C28_iface() {
	qk := sym.Choice("qk", 10)
	ptr := sym.Choice("ptr", 2) == 1
	mk := 0
	if !ptr && sym.Choice("same", 2) == 1 {
		mk = qk
	}
	k1, n1 := c28Int(mk, "k1", false)
	q, nq := c28Int(qk, "q", ptr)
	a := sym.Int("a")
	m := map[interface{}]int{k1: a, "s": 7, true: 8, 1.5: 9}
	c28Check(m, q, nq.eq(n1), a, "")
}

type c28Str string

// C28_others: keys that are not integers.
func C28_others() {
	n := sym.N(2, 3)
	var m, q interface{}
	present := false
	a, b := sym.Int("a"), sym.Int("b")
	val := a
	two := func(hitA, hitB bool) {
		present = hitA || hitB
		if !hitA {
			val = b
		}
	}
	switch sym.Choice("kind", 9) {
	case 0, 1:
		k1, k2, k := sym.Str("k1", n), sym.Str("k2", n), sym.Str("q", n)
		sym.Assume(k1 != k2)
		m, q = map[string]int{k1: a, k2: b}, k
		if sym.Choice("ptr", 2) == 1 {
			q = &k
		}
		two(k == k1, k == k2)
	case 2:
		k1, k2, k := sym.Str("k1", n), sym.Str("k2", n), sym.Str("q", n)
		sym.Assume(k1 != k2)
		m, q = map[interface{}]int{k1: a, k2: b, 5: 3}, k
		two(k == k1, k == k2)
	case 3:
		k1, k2, k := sym.Str("k1", n), sym.Str("k2", n), sym.Str("q", n)
		sym.Assume(k1 != k2)
		m, q = map[c28Str]int{c28Str(k1): a, c28Str(k2): b}, k
		two(k == k1, k == k2)
	case 4:
		k := sym.Bool("q")
		m, q = map[bool]int{true: a}, k
		present = k
	case 5:
		k := sym.Bool("q")
		m, q = map[interface{}]int{true: a, 1: 3, "true": 4}, k
		present = k
	case 6:
		k1, k2, k := sym.Float64("k1"), sym.Float64("k2"), sym.Float64("q")
		sym.Assume(k1 == k1 && k2 == k2 && k == k && k1 != k2)
		m, q = map[float64]int{k1: a, k2: b}, k
		if sym.Choice("ptr", 2) == 1 {
			q = &k
		}
		two(k == k1, k == k2)
	case 7:
		k1, k2, k := sym.Str("k1", n), sym.Str("k2", n), sym.Str("q", n)
		sym.Assume(k1 != k2)
		m, q = map[string]int{k1: a, k2: b}, []byte(k)
		two(k == k1, k == k2)
	default:
		m, q = map[string]int(nil), sym.Str("q", 1)
	}
	c28Check(m, q, present, val, "")
}

type c28Row struct {
	P   byte
	I   int
	I8  int8
	I64 int64
	U8  uint8
	U64 uint64
	U   uint
	S   string
	NS  c28Str
	B   bool
	F   float64
	PI  *int
	PS  *string
	P64 *int64
	PF  *float64
	V   int
}

var c28Fields = []string{"I", "I8", "I64", "U8", "U64", "U", "S", "NS", "B", "F", "PI", "PS", "P64", "PF"}

func c28SetKey(r *c28Row, f, name string) {
	switch f {
	case "I":
		r.I = sym.Int(name)
	case "I8":
		r.I8 = sym.Int8(name)
	case "I64":
		r.I64 = sym.Int64(name)
	case "U8":
		r.U8 = sym.Uint8(name)
	case "U64":
		r.U64 = sym.Uint64(name)
	case "U":
		r.U = sym.Uint(name)
	case "S":
		r.S = sym.Str(name, 2)
	case "NS":
		r.NS = c28Str(sym.Str(name, 2))
	case "B":
		r.B = sym.Bool(name)
	case "F":
		r.F = sym.Float64(name)
		sym.Assume(r.F == r.F)
	case "PI":
		x := sym.Int(name)
		r.PI = &x
	case "PS":
		x := sym.Str(name, 2)
		r.PS = &x
	case "P64":
		x := sym.Int64(name)
		r.P64 = &x
	case "PF":
		x := sym.Float64(name)
		sym.Assume(x == x)
		r.PF = &x
	}
}

func c28SameKey(a, b *c28Row, f string) bool {
	switch f {
	case "I":
		return a.I == b.I
	case "I8":
		return a.I8 == b.I8
	case "I64":
		return a.I64 == b.I64
	case "U8":
		return a.U8 == b.U8
	case "U64":
		return a.U64 == b.U64
	case "U":
		return a.U == b.U
	case "S":
		return a.S == b.S
	case "NS":
		return a.NS == b.NS
	case "B":
		return a.B == b.B
	case "F":
		return a.F == b.F
	case "PI":
		return *a.PI == *b.PI
	case "PS":
		return *a.PS == *b.PS
	case "P64":
		return *a.P64 == *b.P64
	default:
		return *a.PF == *b.PF
	}
}

// C28_index: indexing a slice by a field and looking the keys up again.
func C28_index() {
	f := c28Fields[sym.Choice("field", len(c28Fields))]
	n := sym.Choice("n", sym.N(3, 4))
	ptr := sym.Choice("ptr", 2) == 1
	rows := make([]c28Row, n)
	prows := make([]*c28Row, n)
	for i := range rows {
		rows[i].V = sym.Int("v" + strconv.Itoa(i))
		c28SetKey(&rows[i], f, "k"+strconv.Itoa(i))
		prows[i] = &rows[i]
	}
	probe := c28Row{}
	c28SetKey(&probe, f, "q")
	var val interface{} = rows
	if ptr {
		val = prows
	}
	want, found := 0, false
	for i := range rows {
		if c28SameKey(&probe, &rows[i], f) {
			want, found = rows[i].V, true
		}
	}
	distinct := 0
	for i := range rows {
		later := false
		for j := i + 1; j < n; j++ {
			if c28SameKey(&rows[i], &rows[j], f) {
				later = true
			}
		}
		if !later {
			distinct++
		}
	}
	p := velty.New()
	seen := c27See(p)
	vars := []kv{v("rows", val), v("q", probe)}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "defined")
	}
	ex, ns, err := p.Compile([]byte("#set($index = $rows.IndexBy(\"" + f + "\"))$index.HasKey($q." + f + ")|#if($index.HasKey($q." + f + "))#set($e = $index[$q." + f + "])$e.V#end|$see($index)#foreach($r in $rows)#if($index.HasKey($r." + f + "))+#else-#end#end"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	w := "false||."
	if found {
		w = "true|" + strconv.Itoa(want) + "|."
	}
	for range rows {
		w += "+"
	}
	sym.Assert(st.Buffer.String() == w, "the map holds an entry for every element under its key: "+f)
	sym.Assert(len(*seen) == 1 && reflect.ValueOf((*seen)[0]).Len() == distinct, "the map holds one entry per distinct key: "+f)
	sym.Reach("end")
}

type c28Base struct {
	P   byte
	Key int
}

type c28ByValue struct {
	Q byte
	c28Pad
	C28Emb
	V int
}

type c28Pad struct{ X, Y int16 }

type C28Emb struct {
	R   byte
	Key int
}

type c28ByPtr struct {
	Q byte
	*C28Emb
	V int
}

type c28Any struct {
	Q   byte
	Key interface{}
	V   int
}

type c28Tag struct {
	Q     byte
	Inner int `velty:"name=Key"`
	V     int
}

type c28Solo struct {
	Key *int
}

// C28_rows: the keys of elements of every shape, elements without a key, and what can not be indexed.
func C28_rows() {
	k1, k2, q := sym.Int("k1"), sym.Int("k2"), sym.Int("q")
	sym.Assume(k1 != k2)
	want1, want2 := q == k1, q == k2
	fails := false
	field := "Key"
	var rows interface{}
	n := 2
	solo := false
	switch sym.Choice("rows", 16) {
	case 0:
		rows = []c28Base{{Key: k1}, {Key: k2}}
		solo = true
	case 1:
		rows = []c28ByValue{{C28Emb: C28Emb{Key: k1}, V: 1}, {C28Emb: C28Emb{Key: k2}, V: 2}}
	case 2:
		rows = []*c28ByValue{{C28Emb: C28Emb{Key: k1}, V: 1}, nil, {C28Emb: C28Emb{Key: k2}, V: 2}}
	case 3:
		rows = []c28ByPtr{{C28Emb: &C28Emb{Key: k1}, V: 1}, {C28Emb: &C28Emb{Key: k2}, V: 2}}
	case 4:
		rows = []c28ByPtr{{C28Emb: &C28Emb{Key: k1}, V: 1}, {V: 2}}
		want2, n = false, 1
	case 5:
		rows = []*c28ByPtr{{C28Emb: &C28Emb{Key: k1}, V: 1}, {C28Emb: &C28Emb{Key: k2}, V: 2}, nil}
	case 6:
		rows = []c28Any{{Key: k1, V: 1}, {Key: k2, V: 2}}
	case 7:
		rows = []c28Any{{Key: k1, V: 1}, {V: 2}, {Key: "x", V: 3}}
		want2 = false
	case 8:
		rows, fails = []c28Any{{Key: k1, V: 1}, {Key: []int{k2}, V: 2}}, true
	case 9:
		rows = []c28Tag{{Inner: k1, V: 1}, {Inner: k2, V: 2}}
	case 10:
		rows = []*c28Tag{{Inner: k1, V: 1}, {Inner: k2, V: 2}}
	case 11:
		rows = []c28Solo{{Key: &k1}, {Key: &k2}}
		solo = true
	case 12:
		rows, fails = []int{k1, k2}, true
	case 13:
		rows, fails, field = []c28Base{{Key: k1}}, true, "Missing"
	case 14:
		rows, fails = []string{"Key"}, true
	default:
		rows, want1, want2, n = []*c28ByPtr{}, false, false, 0
	}
	p := velty.New()
	seen := c27See(p)
	vars := []kv{v("rows", rows), v("q", q)}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "defined")
	}
	src := "#set($index = $rows.IndexBy(\"" + field + "\"))$index.HasKey($q)"
	if !fails && !solo {
		src += "#if($index.HasKey($q))#set($e = $index[$q])$e.V#end"
	}
	ex, ns, err := p.Compile([]byte(src + "$see($index)"))
	if err != nil && fails {
		sym.Reach("end")
		return
	}
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, vars...)
	err = ex.Exec(st)
	sym.Assert((err != nil) == fails, "an error is reported for what can not be indexed")
	if !fails {
		w := strconv.FormatBool(want1 || want2)
		if want1 && !solo {
			w += "1"
		} else if want2 && !solo {
			w += "2"
		}
		sym.Assert(st.Buffer.String() == w+".", "the element is found under its key")
		sym.Assert(len(*seen) == 1 && reflect.ValueOf((*seen)[0]).Len() >= n, "every element with a key is there")
	}
	sym.Reach("end")
}
