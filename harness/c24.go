package main

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"veltyverif/sym"
)

// c24Ref is a reference the documentation promises and the path of the field it denotes.
type c24Ref struct {
	text string
	path []int
	kind reflect.Kind
}

// c24Tag reads a tag the way the documentation describes it.
func c24Tag(tag string) (names []string, prefix string, omit bool) {
	for i, e := range strings.Split(tag, ",") {
		switch {
		case strings.HasPrefix(e, "names="):
			names = strings.Split(e[6:], "|")
		case strings.HasPrefix(e, "name="):
			names = []string{e[5:]}
		case strings.HasPrefix(e, "prefix="):
			prefix = e[7:]
		case e == "-":
			omit = true
		case i == 0 && e != "":
			names = strings.Split(e, "|")
		}
	}
	return
}

func c24Refs(t reflect.Type, base, pfx string, path []int) []c24Ref {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	var ret []c24Ref
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		names, prefix, omit := c24Tag(f.Tag.Get("velty"))
		if omit {
			continue
		}
		p := append(append([]int{}, path...), i)
		ft := f.Type
		if ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		if f.Anonymous {
			ret = append(ret, c24Refs(ft, base, pfx+prefix, p)...)
			continue
		}
		if len(names) == 0 {
			names = []string{f.Name}
		}
		for _, n := range names {
			if ft.Kind() == reflect.Struct {
				ret = append(ret, c24Refs(ft, base+pfx+n+".", "", p)...)
			} else {
				ret = append(ret, c24Ref{base + pfx + n, p, ft.Kind()})
			}
		}
	}
	return ret
}

// c24At finds the field of a value, ok is false behind a nil pointer.
func c24At(root reflect.Value, path []int) (reflect.Value, bool) {
	x := root
	for _, i := range path {
		if x.Kind() == reflect.Ptr {
			if x.IsNil() {
				return x, false
			}
			x = x.Elem()
		}
		x = x.Field(i)
	}
	return x, true
}

// c24Fill makes pointers (except the skipped one) and gives every scalar field its own symbolic value.
func c24Fill(x reflect.Value, name string, n *int, skip int) {
	switch x.Kind() {
	case reflect.Ptr:
		*n++
		if *n-1 == skip {
			return
		}
		x.Set(reflect.New(x.Type().Elem()))
		c24Fill(x.Elem(), name, n, skip)
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			c24Fill(x.Field(i), name+"."+strconv.Itoa(i), n, skip)
		}
	case reflect.Int:
		x.Set(reflect.ValueOf(sym.Int(name)))
	case reflect.Uint8:
		x.Set(reflect.ValueOf(sym.Uint8(name)))
	case reflect.Bool:
		x.Set(reflect.ValueOf(sym.Bool(name)))
	case reflect.String:
		x.Set(reflect.ValueOf(sym.StrN(name, 1)))
	}
}

// c24Leaf is a field value, the zero value behind a nil pointer.
func c24Leaf(root reflect.Value, r c24Ref) interface{} {
	if x, ok := c24At(root, r.path); ok {
		return x.Interface()
	}
	switch r.kind {
	case reflect.Int:
		return 0
	case reflect.Uint8:
		return uint8(0)
	case reflect.Bool:
		return false
	}
	return ""
}

func c24Const(k reflect.Kind) (string, interface{}) {
	switch k {
	case reflect.Int:
		return "77", 77
	case reflect.Bool:
		return "true", true
	}
	return "\"new\"", "new"
}

// c24Check reads every reference of the struct, then assigns one of them.
func c24Check(t reflect.Type, holder int, skip int, assign bool) {
	root := reflect.New(t)
	n := 0
	c24Fill(root.Elem(), "f", &n, skip)
	refs := c24Refs(t, "", "", nil)
	p := velty.New()
	seen := c27See(p)
	l, r := sym.Uint8("l"), sym.Str("r", 1)
	sym.Assert(p.DefineVariable("lft", l) == nil, "defined")
	var err error
	pre, post := "s.", ""
	head, tail := "", ""
	switch holder {
	case 0:
		err = p.DefineVariable("s", t)
	case 1:
		err = p.DefineVariable("s", reflect.PtrTo(t))
	case 2:
		err = p.EmbedVariable(t)
		pre = ""
	case 3:
		err = p.EmbedVariable(reflect.PtrTo(t))
		pre = ""
	case 4:
		err = p.DefineVariable("s", reflect.SliceOf(t))
		pre = "s[1]."
	case 5:
		err = p.DefineVariable("s", reflect.SliceOf(reflect.PtrTo(t)))
		pre = "s[1]."
	default:
		err = p.DefineVariable("s", reflect.SliceOf(t))
		pre = "x."
		head, tail = "#foreach($x in $s)", "#end"
	}
	sym.Assert(err == nil, "the struct is accepted")
	sym.Assert(p.DefineVariable("rgt", "") == nil, "defined")
	tpl := ""
	for i, ref := range refs {
		if i%2 == 0 {
			tpl += "$see($" + pre + ref.text + post + ")"
		} else {
			tpl += "$see(${" + pre + ref.text + post + "})"
		}
	}
	tpl = head + tpl + "$see($lft)$see($rgt)" + tail
	k := -1
	if assign {
		k = sym.Choice("assigned", len(refs))
		sym.Assume(refs[k].kind != reflect.Uint8)
		lit, _ := c24Const(refs[k].kind)
		// the loop variable is a copy, so the assignment and the reading stay in one iteration
		set := "#set($" + pre + refs[k].text + " = " + lit + ")"
		if holder < 6 {
			tpl += set + tpl
		} else {
			tpl = head + set + tpl[len(head):]
		}
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, v("lft", l), v("rgt", r))
	switch holder {
	case 0:
		err = st.SetValue("s", root.Elem().Interface())
	case 1:
		err = st.SetValue("s", root.Interface())
	case 2:
		err = st.EmbedValue(root.Elem().Interface())
	case 3:
		err = st.EmbedValue(root.Interface())
	case 5:
		xs := reflect.MakeSlice(reflect.SliceOf(reflect.PtrTo(t)), 2, 2)
		xs.Index(1).Set(root)
		err = st.SetValue("s", xs.Interface())
	default:
		xs := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
		xs.Index(1).Set(root.Elem())
		err = st.SetValue("s", xs.Interface())
	}
	sym.Assert(err == nil, "the value is set")
	want := make([]interface{}, len(refs), len(refs)+2)
	zero := make([]interface{}, len(refs), len(refs)+2)
	for i, ref := range refs {
		want[i] = c24Leaf(root.Elem(), ref)
		zero[i] = reflect.Zero(reflect.TypeOf(want[i])).Interface()
	}
	want, zero = append(want, l, r), append(zero, l, r)
	sym.Assert(ex.Exec(st) == nil, "executes")
	after := append([]interface{}{}, want...)
	if assign {
		_, c := c24Const(refs[k].kind)
		_, ok := c24At(root.Elem(), refs[k].path)
		for i, ref := range refs {
			if c24Path(ref.path) == c24Path(refs[k].path) {
				if ok {
					after[i] = c
				}
				if holder == 6 {
					zero[i] = c
					if c24Ptr(t, ref.path) {
						zero[i] = reflect.Zero(reflect.TypeOf(c)).Interface()
					}
				}
			}
		}
	}
	var all []interface{}
	if holder == 6 {
		all = append(append(all, zero...), after...)
	} else {
		all = append(all, want...)
		if assign {
			all = append(all, after...)
		}
	}
	sym.Assert(len(*seen) == len(all), "all are read")
	for i := range all {
		sym.Assert((*seen)[i] == all[i], "reference "+strconv.Itoa(i)+" of "+tpl)
	}
	sym.Reach("end")
}

func c24Path(p []int) string {
	s := ""
	for _, i := range p {
		s += strconv.Itoa(i) + "."
	}
	return s
}

// c24Ptr reports whether the path leads through a pointer.
func c24Ptr(t reflect.Type, path []int) bool {
	for _, i := range path {
		if t.Kind() == reflect.Ptr {
			return true
		}
		t = t.Field(i).Type
	}
	return false
}

type c24In struct {
	X byte
	Y int
	Z string `velty:"name=Zed"`
}

// C24_tags: structs of three fields of any kinds and tags.
func C24_tags() {
	kinds := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(uint8(0)), reflect.TypeOf(""), reflect.TypeOf(c24In{}), reflect.TypeOf(&c24In{})}
	k := sym.Choice("kind", len(kinds))
	var fields []reflect.StructField
	used := map[string]bool{}
	dup := false
	for i := 0; i < 3; i++ {
		nm := "F" + strconv.Itoa(i)
		id := strconv.Itoa(i)
		tags := []string{"", "name=N" + id, "names=M" + id + "|N" + id + "|" + nm, "L" + id + "|N" + id + "|O" + id + "|P" + id, "-", "name=F" + strconv.Itoa((i+1)%3), "name=N" + id + ",-", "json", " NAME = N" + id + " ", "-,names=A" + id, ",-", ""}
		tag := tags[sym.Choice("tag"+id, sym.N(7, 11))]
		if tag == "json" {
			tag = "json:\"a\" velty:\"name=J" + id + "\""
		} else if tag != "" {
			tag = "velty:\"" + tag + "\""
		}
		f := reflect.StructField{Name: nm, Type: kinds[(k+2*i)%len(kinds)], Tag: reflect.StructTag(tag)}
		names, _, omit := c24Tag(f.Tag.Get("velty"))
		if len(names) == 0 {
			names = []string{nm}
		}
		for _, n := range names {
			if !omit {
				dup = dup || used[n]
				used[n] = true
			}
		}
		fields = append(fields, f)
	}
	t := reflect.StructOf(fields)
	if dup {
		p := velty.New()
		sym.Assert(p.DefineVariable("s", t) != nil, "one name of two fields is rejected")
		sym.Reach("duplicate")
		return
	}
	holder := 0
	if sym.Thorough() {
		holder = sym.Choice("holder", 7)
	}
	c24Check(t, holder, -1, false)
	// names that are not declared are not accessible
	for i := 0; i < 3; i++ {
		hidden := []string{fields[i].Name}
		if names, _, omit := c24Tag(fields[i].Tag.Get("velty")); omit {
			hidden = append(hidden, names...)
		}
		for _, nm := range hidden {
			if !used[nm] {
				p := velty.New()
				sym.Assert(p.DefineVariable("s", t) == nil, "defined")
				_, _, err := p.Compile([]byte("$s." + nm))
				sym.Assert(err != nil, "an omitted or renamed field is not accessible by its Go name, an omitted one by its tag names either")
			}
		}
	}
}

type C24Base struct {
	P byte
	A int
	B string `velty:"names=Bee|Bea"`
}

type C24Mid struct {
	M byte
	C24Base
	N string
}

type C24Ptr struct {
	Q byte
	*C24Base
	T string
}

type C24Pfx struct {
	R       byte
	C24Base `velty:"prefix=One_"`
	S       string
	*C24In  `velty:"prefix=Two_"`
}

type C24In struct {
	X byte
	Y int
	H string `velty:"-"`
	Z string `velty:"name=Zed"`
}

type C24Deep struct {
	U byte
	C24Mid
	V int
	W C24In
	D *C24Ptr
	G C24Mid `velty:"name=Gee"`
}

type C24PtrPtr struct {
	I byte
	*C24Ptr
	J int
	K string
}

type C24PfxPfx struct {
	E      byte
	C24Pfx `velty:"prefix=Out_"`
	F      int
	L      C24Pfx
	O      *C24Pfx `velty:"names=Oh|Och"`
}

type C24First struct {
	C24Base
	C24In `velty:"prefix=I_"`
	Tail  byte
}

type C24Many struct {
	B0 bool
	C24In
	B1  bool
	In1 C24In
	B2  bool
	In2 *C24In
	B3  bool
	In3 C24Base `velty:"names=Three|Drei"`
	B4  bool
	In4 *C24Base
	B5  bool
}

type C24Self struct {
	A    int
	Next *C24Self
	B    string
}

var c24Types = []reflect.Type{reflect.TypeOf(C24Base{}), reflect.TypeOf(C24Mid{}), reflect.TypeOf(C24Ptr{}), reflect.TypeOf(C24Pfx{}), reflect.TypeOf(C24In{}), reflect.TypeOf(C24Deep{}),
	reflect.TypeOf(C24PtrPtr{}), reflect.TypeOf(C24PfxPfx{}), reflect.TypeOf(C24First{}), reflect.TypeOf(C24Many{})}

// C24_embedded: embedded structs and pointers, with and without prefixes, behind every kind of holder; one pointer may be nil.
func C24_embedded() {
	t := c24Types[sym.Choice("type", len(c24Types))]
	n := 0
	holder := sym.Choice("holder", 7)
	c24Fill(reflect.New(t).Elem(), "count", &n, -1)
	c24Check(t, holder, sym.Choice("nil", n+1)-1, false)
}

// C24_assign: assigning one name changes the field and the other names of it only.
func C24_assign() {
	t := c24Types[sym.Choice("type", len(c24Types))]
	holder := sym.Choice("holder", 7)
	n := 0
	c24Fill(reflect.New(t).Elem(), "count", &n, -1)
	skip := -1
	if sym.Thorough() {
		skip = sym.Choice("nil", n+1) - 1
	}
	c24Check(t, holder, skip, true)
}

// C24_hidden: names that denote no field are rejected.
func C24_hidden() {
	p := velty.New()
	c27See(p)
	sym.Assert(p.DefineVariable("s", C24PfxPfx{}) == nil, "defined")
	sym.Assert(p.DefineVariable("d", &C24Deep{}) == nil, "defined")
	sym.Assert(p.DefineVariable("i", C24In{}) == nil, "defined")
	ref := choose("ref", "i.H", "i.Z", "i.zed", "d.W.H", "d.W.Z", "d.G", "d.G.A", "s.A", "s.One_A", "s.Out_A", "s.Out_Two_H", "s.L.Out_One_A", "s.L.A", "s.O.R", "s.Oh.A", "d.B", "d.Gee.B", "s.Out_One_B", "s.l.R", "d.D.Q.A", "i.X.Y", "d.D.Nope")
	form := choose("form", "$R", "${R}", "#if($R == 1)a#end", "#set($z = $R)", "#set($R = 1)", "#foreach($z in $R)a#end", "#set($z = $see($R))")
	_, _, err := p.Compile([]byte(strings.ReplaceAll(form, "R", ref)))
	sym.Assert(err != nil, "not accessible: "+ref)
	sym.Reach("end")
}

// C24_self: fields of a type nested in itself.
func C24_self() {
	a, b, s, u := sym.Int("a"), sym.Int("b"), sym.Str("s", 1), sym.Str("u", 1)
	x := &C24Self{A: a, B: s, Next: &C24Self{A: b, B: u}}
	p := velty.New()
	seen := c27See(p)
	sym.Assert(p.DefineVariable("s", x) == nil, "defined")
	ex, ns, err := p.Compile([]byte("$see($s.A)$see($s.B)$see($s.Next.A)$see($s.Next.B)#set($s.Next.A = 5)$see($s.A)$see($s.Next.A)"))
	sym.Assert(err == nil, "compiles")
	st := ns()
	set(st, v("s", x))
	sym.Assert(ex.Exec(st) == nil, "executes")
	want := []interface{}{a, s, b, u, a, 5}
	sym.Assert(len(*seen) == len(want), "all are read")
	for i := range want {
		sym.Assert((*seen)[i] == want[i], "reference "+strconv.Itoa(i))
	}
	sym.Reach("end")
}

// C24_parse: a tag is read as documented, whatever the names, their number and the order of its parts.
func C24_parse() {
	var want velty.Tag
	tag := ""
	n := sym.Choice("n", 3) + 1
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		if i > 0 {
			tag += ","
		}
		body := func(max int) (string, []string) {
			var names []string
			for j := sym.Choice("names"+k, max); j >= 0; j-- {
				names = append(names, sym.StrOf("t"+k+"."+strconv.Itoa(j), 1, sym.N(1, 2), "aA9_."))
			}
			return strings.Join(names, "|"), names
		}
		blank := ""
		if i == n-1 {
			blank = choose("blank", "", " ")
		}
		switch sym.Choice("part"+k, 5) {
		case 0: // the short form is the first part
			sym.Assume(i == 0)
			b, names := body(4)
			tag, want.Names = tag+blank+b+blank, names
		case 1:
			b, names := body(3)
			tag, want.Names = tag+choose("key"+k, "names", "Names")+"="+blank+b, names
		case 2:
			b, names := body(1)
			tag, want.Names = tag+choose("key"+k, "name", "NAME")+blank+"="+b, names
		case 3:
			b, _ := body(1)
			tag, want.Prefix = tag+choose("key"+k, "prefix", "Prefix")+"="+b+blank, b
		default:
			tag, want.Omit = tag+blank+"-"+blank, true
		}
	}
	got := velty.Parse(tag)
	sym.Assert(got.Omit == want.Omit, "omitted: "+tag)
	sym.Assert(got.Prefix == want.Prefix, "prefix")
	sym.Assert(len(got.Names) == len(want.Names), "number of names")
	for i := range want.Names {
		sym.Assert(got.Names[i] == want.Names[i], "name "+strconv.Itoa(i))
	}
	sym.Reach("end")
}
