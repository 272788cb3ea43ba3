package main

import (
	"errors"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c12Row struct {
	P byte
	I int
	S string
	L []int
	N *c12Row
	Q byte
}

type c12Rec struct {
	P    byte
	Ints []int
	Strs []string
	Rows []c12Row
	Ptrs []*c12Row
	In   *c12Rec
	V    struct {
		P    byte
		Ints []int
	}
	Q byte
}

func (r *c12Rec) GetInts() []int { return r.Ints }

func (r *c12Rec) GetIdx() int { return 1 }

func (r *c12Rec) Pick(s string, x []int, i int) []int {
	if s != "a,b" || i != 1 {
		return nil
	}
	return x
}

func c12Gen() []int { return []int{3, 1, 2} }

// C12_kinds: slices of every element kind and length, elements observed one by one.
func C12_kinds() {
	n := sym.Choice("len", sym.N(5, 7))
	kind := sym.Choice("kind", sliceKinds)
	var seen []interface{}
	val, same := anySlice(kind, n)
	p := velty.New()
	sym.Assert(p.RegisterFunction("see", func(x interface{}) string { seen = append(seen, x); return "," }) == nil, "function registers")
	vars := []kv{v("a", byte(1)), v("xs", val), v("b", "b")}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte("<#foreach($x in $xs).$see($x)#end>$b"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	want := ""
	for i := 0; i < n; i++ {
		want += ".,"
	}
	sym.Assert(st.Buffer.String() == "<"+want+">b", "the body is rendered once per element")
	sym.Assert(len(seen) == n, "every element is visited once")
	for i := range seen {
		sym.Assert(same(i, seen[i]), "elements are visited in order with their exact values, kind "+strconv.Itoa(kind))
	}
	sym.Reach("end")
}

func c12Rows(n int, xs []int) []c12Row {
	r := make([]c12Row, n)
	for i := range r {
		r[i] = c12Row{P: 1, I: xs[i], S: "s" + strconv.Itoa(i), Q: 2}
	}
	return r
}

func c12Syms(n int) []int {
	xs := make([]int, n)
	for i := range xs {
		xs[i] = sym.Int("x" + strconv.Itoa(i))
	}
	return xs
}

// C12_sources: the sequence comes from every kind of place, nil included.
func C12_sources() {
	n := sym.Choice("len", 3)
	xs := c12Syms(n)
	r := &c12Rec{P: 1, Ints: xs, In: &c12Rec{P: 2, Ints: xs, Q: 3}, Q: 4}
	r.V.Ints = xs
	nilAt := sym.Choice("nil", 3)
	if nilAt == 1 {
		sym.Assume(n == 0)
		xs = nil
		r.Ints, r.In.Ints, r.V.Ints = nil, nil, nil
	} else if nilAt == 2 {
		r.In = nil
	}
	src := choose("src", "$xs", "${xs}", "$r.Ints", "${r.Ints}", "$v.Ints", "$r.In.Ints", "$v.In.Ints", "$r.V.Ints", "$v.V.Ints", "$xss[1]", "$m[\"k\"]", "$ids($xs)", "$r.GetInts()", "$copy", "$pick(1, $xs)", "$pick($one,$xs)", "$pick( 1 , $xs )", "$pick($r.GetIdx(), $ids($xs))", "$r.Pick(\"a,b\", $xs, 1)", "$pick(1, $xss[1])", "$r.In.GetInts()")
	if src == "$r.In.GetInts()" && nilAt == 2 { // a method of a nil receiver
		sym.Assume(false)
	}
	pre := "#set($copy = $xs)"
	tpl := pre + "#foreach($x in " + src + ")$x,#end|"
	switch sym.Choice("form", 3) {
	case 1:
		tpl = pre + "#foreach($x, $i in " + src + ")$x,#end|"
	case 2:
		tpl = pre + "#if($one == 1)#foreach( $x in " + src + " )$x,#end#end|"
	}
	want := ""
	if !(nilAt == 2 && (src == "$r.In.Ints" || src == "$v.In.Ints")) {
		for _, x := range xs {
			want += strconv.Itoa(x) + ","
		}
	}
	p := velty.New()
	sym.Assert(p.RegisterFunction("pick", func(i int, x []int) ([]int, error) {
		if i != 1 {
			return nil, errors.New("index")
		}
		return x, nil
	}) == nil, "function registers")
	sym.Assert(p.RegisterFunction("ids", func(x []int) []int { return x }) == nil, "function registers")
	vars := []kv{v("xs", xs), v("r", r), v("v", *r), v("one", 1), v("xss", [][]int{{7, 7}, xs, {8}}), v("m", map[string][]int{"j": {9}, "k": xs})}
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == want+"|", "the elements of "+src)
	sym.Reach("end")
}

// C12_fields: struct elements by value and by pointer; fields of the loop variable.
func C12_fields() {
	n := sym.Choice("len", sym.N(3, 4))
	xs := c12Syms(n)
	rows := c12Rows(n, xs)
	ptrs := make([]*c12Row, n)
	for i := range rows {
		c := rows[i]
		c.N = &rows[i]
		ptrs[i] = &c
		rows[i].L = []int{xs[i], i}
	}
	want := ""
	var out string
	vars := []kv{v("rows", rows), v("ptrs", ptrs), v("r", &c12Rec{Rows: rows, Ptrs: ptrs})}
	switch sym.Choice("case", 4) {
	case 0:
		s := choose("src", "$rows", "$r.Rows", "$ptrs", "$r.Ptrs")
		out = render("#foreach($row in "+s+")$row.I:${row.S};#end", vars...)
		for i := range rows {
			want += strconv.Itoa(xs[i]) + ":s" + strconv.Itoa(i) + ";"
		}
	case 1:
		s := choose("src", "$rows", "$r.Rows")
		out = render("#foreach($row in "+s+")#foreach($l in $row.L)$row.S=$l,#end;#end", vars...)
		for i := range rows {
			want += "s" + strconv.Itoa(i) + "=" + strconv.Itoa(xs[i]) + ",s" + strconv.Itoa(i) + "=" + strconv.Itoa(i) + ",;"
		}
	case 2:
		out = render("#foreach($row in $ptrs)$row.N.S#foreach($l in $row.N.L) $l#end;#end", vars...)
		for i := range rows {
			want += "s" + strconv.Itoa(i) + " " + strconv.Itoa(xs[i]) + " " + strconv.Itoa(i) + ";"
		}
	default: // writing a field of the loop variable: a copy of a struct, the element itself through a pointer
		out = render("#foreach($row in $rows)#set($row.I = 5)$row.I#end,#foreach($row2 in $ptrs)#set($row2.I = 6)$row2.I#end", vars...)
		for range rows {
			want += "5"
		}
		want += ","
		for range rows {
			want += "6"
		}
		for i := range rows {
			sym.Assert(rows[i].I == xs[i] && ptrs[i].I == 6, "elements by value are copied to the loop variable, pointers are not")
		}
	}
	sym.Assert(out == want, "fields of the loop variable")
	for i := range rows {
		sym.Assert(rows[i].P == 1 && rows[i].Q == 2 && rows[i].I == xs[i], "elements are unchanged")
	}
	sym.Reach("end")
}

// C12_range: integer ranges in both directions.
func C12_range() {
	a := sym.Choice("from", 7) - 3
	b := sym.Choice("to", 7) - 3
	sp := []string{"", " "}[sym.Choice("space", 2)]
	x := sym.Int("x")
	k := 10 // wider values
	if sym.Choice("scale", 2) == 1 {
		a, b = a+k, b+k
	}
	out := render("#foreach($i in"+sp+" ["+strconv.Itoa(a)+"..."+strconv.Itoa(b)+"]"+sp+")$i:$x,#end|", v("x", x))
	want := ""
	for i := a; i < b; i++ {
		want += strconv.Itoa(i) + ":" + strconv.Itoa(x) + ","
	}
	for i := a; i > b; i-- {
		want += strconv.Itoa(i) + ":" + strconv.Itoa(x) + ","
	}
	sym.Assert(out == want+"|", "integers of the range in order")
	sym.Reach("end")
}

// c12Far are bounds around the limits of the integer types.
var c12Far = []int{1 << 31, 1<<31 - 1, -1 << 31, -1<<31 - 1, 1 << 32, -1 << 32, 1 << 53, 1<<53 + 1, -1<<53 - 2, 1<<62 + 5, 1<<63 - 4, -1<<63 + 3, 1 << 15, 1 << 16, 127, 255, 999999, 1000000, 100000000, 99999999999, 1e18}

// C12_bounds: ranges whose bounds are large, in both directions.
func C12_bounds() {
	a := c12Far[sym.Choice("from", len(c12Far))]
	b := a + sym.Choice("n", 7) - 3
	x := sym.Int("x")
	sym.Assume(x >= -3 && x <= 3)
	form := sym.Choice("form", 3)
	tpl := []string{"#foreach($e in [%])$e,#end", "#foreach($e in [%])#set($s = $e + $x)$s,#end", "#set($l = 0)#foreach($e in [%])#set($l = $e)#end$l,"}[form]
	tpl = strings.Replace(tpl, "%", strconv.Itoa(a)+"..."+strconv.Itoa(b), 1)
	want, last := "", 0
	step := func(i int) {
		last = i
		if form == 1 {
			i += x
		}
		want += strconv.Itoa(i) + ","
	}
	for i := a; i < b; i++ {
		step(i)
	}
	for i := a; i > b; i-- {
		step(i)
	}
	if form == 2 {
		want = strconv.Itoa(last) + ","
	}
	sym.Assert(render(tpl, v("x", x)) == want, "integers of the range in order: "+tpl)
	sym.Reach("end")
}

// C12_quiet: loops with nothing to render: what is evaluated and assigned is as if there were.
func C12_quiet() {
	n := sym.Choice("n", sym.N(4, 6))
	xs := make([]int, n)
	for i := range xs {
		xs[i] = sym.Int("e" + strconv.Itoa(i))
	}
	x := sym.Int("x")
	calls := 0
	p := velty.New()
	vars := []kv{v("xs", xs), v("x", x), v("e", 7)}
	for _, d := range vars {
		sym.Assert(p.DefineVariable(d.name, d.val) == nil, "variable can be defined")
	}
	sym.Assert(p.RegisterFunction("f", func(l []int) []int { calls++; return l }) == nil, "function registers")
	sym.Assert(p.RegisterFunction("g", func(i int) bool { calls++; return i > x }) == nil, "function registers")
	var tpl, want string
	wc := n
	switch sym.Choice("case", 5) {
	case 0:
		tpl, wc = "a#foreach($q in $f($xs))#end b$x", 1
	case 1:
		tpl = "a#foreach($q in $xs)#if($g($q))#end#end b$x"
	case 2:
		tpl = "a#foreach($q in $xs)#set($y = $g($q))#end b$x"
	case 3:
		tpl = "a#foreach($q in $f($xs))#foreach($w in $f($xs))#end#end b$x"
		wc = n + 1
	default:
		tpl = "a#foreach($q in [0..." + strconv.Itoa(n) + "])#if($g($q))#{else}#end#end b$x"
	}
	want = "a b" + strconv.Itoa(x)
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "executes")
	sym.Assert(st.Buffer.String() == want, "nothing is rendered for an element: "+tpl)
	sym.Assert(calls == wc, "what the loop evaluates is evaluated for every element: "+tpl)
	sym.Reach("end")
}

// C12_nest: nested and consecutive loops, loop variables reused.
func C12_nest() {
	n, m := sym.Choice("n", sym.N(4, 5)), sym.Choice("m", 3)
	xs, ys := make([]int, n), make([]string, m)
	for i := range xs {
		xs[i] = sym.Int("x" + strconv.Itoa(i))
	}
	for i := range ys {
		ys[i] = sym.Str("y"+strconv.Itoa(i), 1)
	}
	z := sym.Int("z")
	xc := append([]int{}, xs...)
	vars := []kv{v("xs", xs), v("ys", ys), v("z", z), v("rs", []c12Row{{I: z, S: "q"}})}
	is := strconv.Itoa
	want := ""
	var tpl string
	switch sym.Choice("case", 9) {
	case 0:
		tpl = "#foreach($x in $xs)#foreach($y in $ys)$x$y,#end;#end"
		for _, x := range xs {
			for _, y := range ys {
				want += is(x) + y + ","
			}
			want += ";"
		}
	case 1: // same variable and element type, nested
		tpl = "#foreach($x in $xs)<$x#foreach($x in $xs)$x,#end>#end"
		for _, x := range xs {
			want += "<" + is(x)
			for _, x := range xs {
				want += is(x) + ","
			}
			want += ">"
		}
	case 2: // consecutive loops, same variable, same type
		tpl = "#foreach($x in $xs)$x,#end#foreach($x in [0...2])$x,#end"
		for _, x := range xs {
			want += is(x) + ","
		}
		want += "0,1,"
	case 3: // consecutive loops, same variable, other type
		tpl = "#foreach($x in $xs)$x,#end#foreach($x in $ys)$x,#end#foreach($x in $xs)$x,#end"
		for _, x := range xs {
			want += is(x) + ","
		}
		for _, y := range ys {
			want += y + ","
		}
		for _, x := range xs {
			want += is(x) + ","
		}
	case 4: // loop variable named as an existing variable of another type
		tpl = "$z;#foreach($z in $ys)$z,#end"
		want = is(z) + ";"
		for _, y := range ys {
			want += y + ","
		}
	case 5: // nested, other type, fields
		tpl = "#foreach($x in $rs)$x.I#foreach($x in $ys)$x,#end#foreach($x in $rs)$x.S#end;#end"
		want = is(z)
		for _, y := range ys {
			want += y + ","
		}
		want += "q;"
	case 6: // three levels
		tpl = "#foreach($x in $xs)#foreach($y in $ys)#foreach($i in [0...2])$x$y$i,#end#end#end"
		for _, x := range xs {
			for _, y := range ys {
				want += is(x) + y + "0," + is(x) + y + "1,"
			}
		}
	case 7: // sequence and other variables assigned in the body
		tpl = "#set($c = 0)#set($w = $xs)#foreach($x in $w)#set($w = $none)#set($c = $c + $x)$x,#end$c"
		vars = append(vars, v("none", []int{}))
		c := 0
		for _, x := range xs {
			c += x
			want += is(x) + ","
		}
		want += is(c)
	default: // conditionals and assignments of the loop variable in the body
		tpl = "#foreach($x in $xs)#if($x > $z)G#set($x = $z)#end$x,#end"
		for _, x := range xs {
			if x > z {
				want += "G"
				x = z
			}
			want += is(x) + ","
		}
	}
	sym.Assert(render(tpl, vars...) == want, "nested and consecutive loops: "+tpl)
	for i := range xs {
		sym.Assert(xs[i] == xc[i], "elements are unchanged")
	}
	sym.Reach("end")
}

// C12_fail: a call that fails in the body does not end the iteration.
func C12_fail() {
	n := sym.Choice("n", sym.N(4, 6))
	bad := sym.Int("bad")
	xs := make([]int, n)
	for i := range xs {
		xs[i] = sym.Int("e" + strconv.Itoa(i))
	}
	var got []int
	p := velty.New()
	for _, x := range []kv{v("xs", xs), v("t", true), v("one", []int{1})} {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	sym.Assert(p.RegisterFunction("f", func(i int) (string, error) {
		got = append(got, i)
		if i == bad {
			return "", errors.New("failed")
		}
		return "", nil
	}) == nil, "function registers")
	body := choose("body", "$f($e)", "#set($y = $f($e))", "#if($f($e) == \"\")#end", "#if($t)$f($e)#end", "#foreach($q in $one)$f($e)#end", "#for($j = 0; $j < 1; $j++)$f($e)#end")
	head := choose("head", "#foreach($e in $xs)", "#foreach($e, $k in $xs)")
	ex, ns, err := p.Compile([]byte(head + "[" + body + "]#end"))
	sym.Assert(err == nil, "template compiles")
	st := ns()
	set(st, v("xs", xs), v("t", true), v("one", []int{1}))
	err = ex.Exec(st)
	failed := false
	sym.Assert(len(got) == n, "the body runs once for every element")
	for i := range xs {
		failed = failed || xs[i] == bad
		sym.Assert(got[i] == xs[i], "the elements are visited in order")
	}
	sym.Assert((err != nil) == failed, "the failure is reported")
	out := st.Buffer.String()
	sym.Assert(strings.Count(out, "[") == n && strings.Count(out, "]") == n, "the body is rendered once for every element")
	sym.Reach("end")
}
