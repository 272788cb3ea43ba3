package main

import (
	"strconv"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c18Idx struct {
	P   byte
	I   int
	I8  int8
	U8  uint8
	I16 int16
	U16 uint16
	I32 int32
	U32 uint32
	I64 int64
	U64 uint64
	U   uint
	PI  *int
	In  *c18Idx
	L   []int
	Q   byte
}

func (r *c18Idx) Get() int { return r.I }

var c18Sources = []string{"$i", "${i}", "$r.I", "$v.I", "$r.In.I", "$ix[1]", "$m[\"k\"]", "$r.Get()", "$id($i)", "$i - $j + $j", "$z + $i", "$v.L[1]",
	"$v.I8", "$v.U8", "$v.I16", "$v.U16", "$v.I32", "$v.U32", "$v.I64", "$v.U64", "$v.U", "$v.PI", "$r.PI", "$pi", "$any", "$t", "$i8", "$u8", "$i16", "$u16", "$i32", "$u32", "$i64", "$u64", "$u"}

func c18Vars(i, j int) (*velty.Planner, []kv) {
	p := velty.New()
	sym.Assert(p.RegisterFunction("id", func(x int) int { return x }) == nil, "function registers")
	in := &c18Idx{P: 1, I: i, Q: 2}
	r := &c18Idx{P: 1, I: i, I8: int8(i), U8: uint8(i), I16: int16(i), U16: uint16(i), I32: int32(i), U32: uint32(i), I64: int64(i), U64: uint64(i), U: uint(i), PI: &i, In: in, L: []int{7, i, 8}, Q: 255}
	vars := []kv{v("i", i), v("j", j), v("z", 0), v("r", r), v("v", *r), v("ix", []int{5, i, 6}), v("m", map[string]int{"j": 9, "k": i}), v("pi", &i),
		v("i8", int8(i)), v("u8", uint8(i)), v("i16", int16(i)), v("u16", uint16(i)), v("i32", int32(i)), v("u32", uint32(i)), v("i64", int64(i)), v("u64", uint64(i)), v("u", uint(i)), v("any", []interface{}{i})}
	return p, vars
}

// C18_kinds: every element kind at every in-range index.
func C18_kinds() {
	n := 1 + sym.Choice("len", sym.N(3, 5))
	kind := sym.Choice("kind", sliceKinds)
	val, same := anySlice(kind, n)
	i := sym.IntIn("i", 0, n-1)
	j := sym.Int("j")
	p, vars := c18Vars(i, j)
	var seen []interface{}
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "." }) == nil, "function registers")
	vars = append(vars, v("xs", val), v("hold", struct {
		P  byte
		XS interface{}
	}{1, val}))
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ref := choose("ref", "$xs[$i]", "${xs[$r.I]}", "$xs[$v.U8]")
	tpl := "<$see(" + ref + ")>"
	if sym.Choice("set", 2) == 1 {
		tpl = "#set($c = " + ref + ")<$see($c)>"
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == "<.>" && len(seen) == 1, "one element is passed")
	sym.Assert(same(sym.ConcreteInt(i), seen[0]), "the indexed element of kind "+strconv.Itoa(kind))
	sym.Reach("end")
}

// C18_sources: every source of the index.
func C18_sources() {
	n := 1 + sym.Choice("len", sym.N(2, 4))
	xs := make([]int, n)
	ss := make([]string, n)
	for k := range xs {
		xs[k] = sym.Int("x" + strconv.Itoa(k))
		ss[k] = "s" + strconv.Itoa(k)
	}
	i := sym.IntIn("i", 0, n-1)
	j := sym.Int("j")
	p, vars := c18Vars(i, j)
	vars = append(vars, v("xs", xs), v("ss", ss))
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	src := choose("src", c18Sources...)
	at := src
	if src == "$any" {
		at = "$any[0]"
	}
	tpl := "#set($t = $i)<$xs[" + at + "]|${ss[" + at + "]}>"
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	k := sym.ConcreteInt(i)
	sym.Assert(st.Buffer.String() == "<"+strconv.Itoa(xs[k])+"|"+ss[k]+">", "the element at index "+src)
	sym.Reach("end")
}

type c18Row struct {
	P byte
	I int
	S string
	L []int
	M map[string]int
	N *c18Row
	V struct {
		P byte
		S string
	}
	Q byte
}

func (r *c18Row) Name() string { return r.S }

type c18Rec struct {
	P    byte
	Rows []c18Row
	Ptrs []*c18Row
	In   *c18Rec
	Q    byte
}

// C18_paths: the slice comes from every kind of place and the element is navigated further.
func C18_paths() {
	n := sym.N(2, 3)
	rows := make([]c18Row, n)
	ptrs := make([]*c18Row, n)
	for k := range rows {
		rows[k] = c18Row{P: 1, I: sym.Int("x" + strconv.Itoa(k)), S: "s" + strconv.Itoa(k), L: []int{k, sym.Int("y" + strconv.Itoa(k))}, M: map[string]int{"k": k}, Q: 2}
		rows[k].V.S = "v" + strconv.Itoa(k)
		ptrs[k] = &rows[k]
		if k > 0 {
			rows[k].N = &rows[k-1]
		}
	}
	i := sym.IntIn("i", 0, n-1)
	k := sym.ConcreteInt(i)
	row := rows[k]
	rec := &c18Rec{P: 1, Rows: rows, Ptrs: ptrs, In: &c18Rec{P: 3, Rows: rows, Ptrs: ptrs}, Q: 2}
	base := choose("base", "$rows", "$ptrs", "$rec.Rows", "$rec.Ptrs", "$val.Rows", "$val.Ptrs", "$rec.In.Rows", "$val.In.Ptrs", "$m[\"k\"]", "$lol[0]", "$c")
	path := choose("path", ".I", ".S", ".V.S", ".L[1]", ".M[\"k\"]", ".N.S", ".Name()", ".L[0]")
	if path == ".Name()" {
		sym.Assume(base == "$ptrs" || base == "$rec.Ptrs" || base == "$val.Ptrs" || base == "$val.In.Ptrs")
	}
	var want string
	switch path {
	case ".I":
		want = strconv.Itoa(row.I)
	case ".S", ".Name()":
		want = row.S
	case ".V.S":
		want = row.V.S
	case ".L[1]":
		want = strconv.Itoa(row.L[1])
	case ".L[0]":
		want = strconv.Itoa(k)
	case ".M[\"k\"]":
		want = strconv.Itoa(k)
	case ".N.S":
		if k > 0 {
			want = rows[k-1].S
		}
	}
	p := velty.New()
	sym.Assert(p.RegisterFunction("gen", func() []c18Row { return rows }) == nil, "function registers")
	vars := []kv{v("i", i), v("rows", rows), v("ptrs", ptrs), v("rec", rec), v("val", *rec), v("m", map[string][]c18Row{"k": rows}), v("lol", [][]c18Row{rows})}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	tpl := "#set($c = $rows)<${" + base[1:] + "[$i]" + path + "}>"
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == "<"+want+">", "the field of the element "+base+path)
	sym.Reach("end")
}

// C18_range: an index outside the slice never yields a value; memory accesses are checked by the engine.
func C18_range() {
	n := sym.Choice("len", 3)
	kind := choose("kind", "int", "str", "row", "any", "lol", "nil")
	mk := func(n int) []kv {
		xs, ss, rows, any, lol := make([]int, n, n+2), make([]string, n, n+2), make([]c18Row, n), make([]interface{}, n), make([][]int, n)
		if kind == "nil" {
			xs = nil
		}
		return []kv{v("xs", xs), v("ss", ss), v("rows", rows), v("any", any), v("lol", lol)}
	}
	if kind == "nil" {
		sym.Assume(n == 0)
	}
	i := sym.Int("i")
	sym.Assume(i < 0 || i >= n)
	vars := append(mk(n), v("i", i), v("i8", int8(i)), v("u64", uint64(i)), v("i32", int32(i)), v("u8", uint8(i)))
	var ref string
	switch kind {
	case "int", "nil":
		ref = "$xs["
	case "str":
		ref = "$ss["
	case "row":
		ref = "$rows["
	case "any":
		ref = "$any["
	default:
		ref = "$lol["
	}
	switch sym.Choice("idx", 6) {
	case 0, 1:
		ref += "$i]"
	case 2:
		sym.Assume(i >= -128 && i < 128)
		ref += "$i8]"
	case 3:
		ref += "$u64]"
	case 4:
		sym.Assume(i >= -1<<31 && i < 1<<31)
		ref += "$i32]"
	default:
		sym.Assume(i >= 0 && i < 256)
		ref += "$u8]"
	}
	use := sym.Choice("use", 4)
	var tpl string
	switch use {
	case 0:
		tpl = ref + "after"
		if kind == "row" {
			tpl = ref + ".S after"
		}
		if kind == "lol" || kind == "any" {
			tpl = "#set($e = " + ref + ")after"
		}
	case 1:
		tpl = "#set($e = " + ref + ")after"
	case 2:
		sym.Assume(kind == "int" || kind == "nil")
		tpl = "#set(" + ref + " = 5)after"
	default:
		sym.Assume(kind == "int" || kind == "nil")
		tpl = "#if(" + ref + " == 5)yes#{else}no#end after"
	}
	ex, ns := plan(tpl, nil, vars...)
	st := ns()
	set(st, vars...)
	failed := func() (failed bool) {
		defer func() {
			if r := recover(); r != nil {
				failed = true
			}
		}()
		return ex.Exec(st) != nil
	}()
	sym.Assert(failed, "an index outside the slice fails: "+tpl)
	sym.Assert(st.Buffer.String() == "", "nothing is rendered for an index outside the slice")
	sym.Reach("end")
}

// C18_maps: looking up a key that is present and one that is not.
func C18_maps() {
	a, b := sym.Str("a", 2), sym.Str("b", 2)
	x, y := sym.Int("x"), sym.Int("y")
	k := sym.Str("k", 2)
	i, j, q := sym.Int("i"), sym.Int("j"), sym.Int("q")
	sym.Assume(a != b && i != j)
	row := c18Row{S: "rs", I: x}
	r := struct {
		P  byte
		K  string
		PK *string
		Q  int
	}{1, k, &k, q}
	vars := []kv{v("k", k), v("pk", &k), v("q", q), v("r", r), v("ks", []string{k}), v("i64", int64(q)),
		v("si", map[string]int{a: x, b: y}), v("ss", map[string]string{a: "A", b: "B"}), v("sr", map[string]c18Row{a: row, b: {}}), v("sp", map[string]*c18Row{a: &row, b: nil}),
		v("is", map[int]string{i: "A", j: "B"}), v("i64s", map[int64]string{int64(i): "A", int64(j): "B"}), v("sl", map[string][]string{a: {"A"}, b: {"B"}}), v("sb", map[string]bool{a: true, b: false}), v("sf", map[string]float64{a: 1.5, b: 2.5}),
		v("sm", map[string]map[string]string{a: {"n": "A"}, b: nil}), v("nilm", map[string]string(nil)), v("h", struct {
			P byte
			M map[string]string
			N map[int]string
		}{1, map[string]string{a: "A", b: "B"}, map[int]string{i: "A", j: "B"}}), v("n8", map[string]int8{a: 7})}
	key := choose("key", "$k", "$r.K", "$ks[0]", "$pk", "$r.PK", "$q", "$r.Q", "$i64")
	var tpl, want string
	hitA, hitB := k == a, k == b
	if key == "$q" || key == "$r.Q" || key == "$i64" {
		hitA, hitB = q == i, q == j
		m := choose("m", "$is", "$i64s", "$h.N")
		tpl = "<${" + m[1:] + "[" + key + "]}>"
		switch {
		case hitA:
			want = "A"
		case hitB:
			want = "B"
		}
	} else {
		pick := func(na, nb, no string) {
			switch {
			case hitA:
				want = na
			case hitB:
				want = nb
			default:
				want = no
			}
		}
		switch sym.Choice("m", 11) {
		case 0:
			tpl = "<$si[" + key + "]>"
			pick(strconv.Itoa(x), strconv.Itoa(y), "0")
		case 1:
			tpl = "<$ss[" + key + "]>"
			pick("A", "B", "")
		case 2:
			tpl = "<${sr[" + key + "].S}>"
			pick("rs", "", "")
		case 3:
			tpl = "<${sp[" + key + "].S}>"
			pick("rs", "", "")
		case 4:
			tpl = "#foreach($e in $sl[" + key + "])$e#end"
			pick("A", "B", "")
		case 5:
			tpl = "<$sb[" + key + "]>"
			pick("true", "false", "false")
		case 6:
			tpl = "<$sf[" + key + "]>"
			pick("1.5", "2.5", "0")
		case 7:
			tpl = "<${sm[" + key + "][\"n\"]}>"
			pick("A", "", "")
		case 8:
			tpl = "<${nilm[" + key + "]}>"
		case 9:
			tpl = "<${h.M[" + key + "]}>"
			pick("A", "B", "")
		default:
			tpl = "#if($si[" + key + "] == $si[\"" + "none" + "\"])T#{else}F#end"
			sym.Assume(a != "none" && b != "none")
			want = "F"
			if hitA {
				want = b2s(x == 0)
			} else if hitB {
				want = b2s(y == 0)
			} else {
				want = "T"
			}
		}
		if tpl[0] == '<' {
			want = "<" + want + ">"
		}
	}
	if tpl[0] == '<' && (want == "" || want[0] != '<') {
		want = "<" + want + ">"
	}
	out := render(tpl, vars...)
	sym.Assert(out == want, "the value stored for the key: "+tpl)
	sym.Reach("end")
}

// C18_results: indexing function results, interfaces holding slices and maps, and nested containers.
func C18_results() {
	n := 3
	xs := make([]int, n)
	for k := range xs {
		xs[k] = sym.Int("x" + strconv.Itoa(k))
	}
	i := sym.IntIn("i", 0, n-1)
	k := sym.ConcreteInt(i)
	p := velty.New()
	sym.Assert(p.RegisterFunction("ids", func(x []int) []int { return x }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("strs", func(x []string) []string { return x }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("dict", func(x map[string]int) map[string]int { return x }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("anyOf", func(x interface{}) interface{} { return x }) == nil, "function registers")
	vars := []kv{v("i", i), v("xs", xs), v("ss", []string{"a", "b", "c"}), v("m", map[string]int{"a": xs[0], "b": xs[1], "c": xs[2]}),
		v("any", []interface{}{xs[0], xs[1], xs[2]}), v("nest", [][][]int{{{1}, xs}, {}}), v("mm", map[string]map[int]int{"k": {0: xs[0], 1: xs[1], 2: xs[2]}}),
		v("hold", struct {
			P byte
			A interface{}
			B interface{}
			C interface{}
		}{1, []interface{}{xs[0], xs[1], xs[2]}, map[string]interface{}{"a": xs[0], "b": xs[1], "c": xs[2]}, xs})}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ref := choose("ref", "ids($xs)[$i]", "dict($m)[$ss[$i]]", "m[$ss[$i]]", "m[$strs($ss)[$i]]", "any[$i]", "nest[0][1][$i]", "mm[\"k\"][$i]", "hold.A[$i]", "hold.B[$ss[$i]]", "hold.C[$i]", "anyOf($any)[$i]", "anyOf($xs)[$i]", "xs[$i + 0]", "ids($ids($xs))[$i]")
	tpl := "<${" + ref + "}>"
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == "<"+strconv.Itoa(xs[k])+">", "the element "+ref)
	sym.Reach("end")
}
