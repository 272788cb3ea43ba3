package main

import (
	"errors"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

type c21Rec struct {
	P byte
	I int
	L []int
}

func (r *c21Rec) Get(fail bool) (int, error) {
	if fail {
		return 0, errors.New("boom")
	}
	return r.I, nil
}

type c21Pos struct {
	tpl    string // %s is replaced by nothing; F is the flag that makes the function fail
	prefix string // what is rendered before the failing call
	ok     string // what is rendered when nothing fails
	loose  bool
}

// every position of a call that may fail; X is 3, $f is the symbolic flag
var c21Positions = []c21Pos{
	{"A$fi($f)Z", "A", "A3Z", false},
	{"A${fi($f)}Z", "A", "A3Z", false},
	{"A$fs($f)Z", "A", "AsZ", false},
	{"A$fb($f)Z", "A", "AtrueZ", false},
	{"A$ff($f)Z", "A", "A1.5Z", false},
	{"A$id($fi($f))Z", "A", "A3Z", false},
	{"A$id($id($fi($f)))Z", "A", "A3Z", false},
	{"A$r.Get($f)Z", "A", "A3Z", false},
	{"A$rs[0].Get($f)Z", "A", "A3Z", false},
	{"A#set($y = $fi($f))Z$y", "A", "AZ3", true},
	{"A#set($y = $fi($f) + 1)Z$y", "A", "AZ4", true},
	{"A#set($x = 1 + $fi($f))Z", "A", "AZ", false},
	{"A#set($r.I = $fi($f))Z", "A", "AZ", false},
	{"A#if($fb($f))B#end Z", "A", "AB Z", true},
	{"A#if(!$fb($f))B#{else}C#end Z", "A", "AC Z", true},
	{"A#if($fi($f) == 3)B#end Z", "A", "AB Z", true},
	{"A#if($x == 0)B#elseif($fi($f) == 3)C#end Z", "A", "AC Z", true},
	{"A#if($t && $fb($f))B#end Z", "A", "AB Z", true},
	{"A#if($x == 3)B$fi($f)#end Z", "AB", "AB3 Z", true},
	{"A#if($x == 0)#elseB$fi($f)#end Z", "AB", "AB3 Z", true},
	{"A#foreach($e in $fl($f))$e#end Z", "A", "A12 Z", true},
	{"A#foreach($e in $xs)$e$fi($f)#end Z", "A7", "A7383 Z", true},
	{"A#foreach($e in $xs)#if($e == 8)$fi($f)#end$e#end Z", "A7", "A738 Z", true},
	{"A#for($i = $fi($f); $i < 4; $i++)$i#end Z", "A", "A3 Z", true},
	{"A#for($i = 0; $i < 2; $i++)$i$fi($f)#end Z", "A0", "A0313 Z", true},
	{"A$xs[$idx($f)]Z", "A", "A8Z", true},
	{"A$fl($f)[1]Z", "A", "A2Z", true},
	{"A$m[$fs($f)]Z", "A", "A9Z", true},
	{"A#evaluate($tx)Z", "A", "A3Z", false},
	{"A#evaluate($fs($f))Z", "A", "AsZ", true},
	{"A#evaluate($nest)Z", "A", "A3Z", false},
	{"A$cat($fs($f), \"q\")Z", "A", "AsqZ", true},
	{"A$cat(\"q\", $fs($f))Z", "A", "AqsZ", true},
	{"A$errors.AssertWithMessage($nf, \"boom\")Z", "A", "AtrueZ", false},
	{"1$x$x$x$x$x$x$x$x$x$x$x$x$fi($f)Z", "1333333333333", "13333333333333Z", false},
	{"A#if($x == 3)#foreach($e in $xs)#if($e == 8)#for($i = 0; $i < 1; $i++)B$fi($f)#end#end#end#end Z", "AB", "AB3 Z", true},
	{"A$fa($f)Z", "A", "AsZ", false},
	{"A$fv(1, $f)Z", "A", "A1Z", false},
	// nothing to render or to assign
	{"A#if($fb($f))#end Z", "A", "A Z", true},
	{"A#if($fb($f))#{else}#end Z", "A", "A Z", true},
	{"A#if(!$fb($f))#{else}#end Z", "A", "A Z", true},
	{"A#if($x == 0)#elseif($fb($f))#end Z", "A", "A Z", true},
	{"A#if($x == 0)#elseif($fi($f) == 3)#{else}#end Z", "A", "A Z", true},
	{"A#if($fi($f) == 3)#end Z", "A", "A Z", true},
	{"A#if($t)#if($fb($f))#end#end Z", "A", "A Z", true},
	{"A#if($t)#if($x == 0)#{else}#if($fb($f))#end#end#end Z", "A", "A Z", true},
	{"A#foreach($e in $fl($f))#end Z", "A", "A Z", true},
	{"A#foreach($e in $xs)#if($fb($f))#end#end Z", "A", "A Z", true},
	{"A#foreach($e in $xs)#set($q = $fi($f))#end Z", "A", "A Z", true},
	{"A#for($i = $fi($f); $i < 4; $i++)#end Z", "A", "A Z", true},
	{"A#for($i = 0; $i < $fi($f); $i++)#end Z", "A", "A Z", true},
	{"A#for($i = 0; $i < 4; $i += $fi($f))#end Z", "A", "A Z", true},
	{"A#for($i = 0; $i < 2; $i++)#if($fb($f))#end#end Z", "A", "A Z", true},
	{"A#set($y = $fb($f) && $t)Z", "A", "AZ", true},
	{"A#set($y = $fs($f) + \"\")Z", "A", "AZ", true},
	{"A#set($y = $fi($f) * 0)Z", "A", "AZ", true},
	{"A#set($x = $fi($f))#set($x = 4)Z$x", "A", "AZ4", true},
	{"A#evaluate($te)Z", "A", "AZ", true},
	{"A$fe($f)Z", "A", "AZ", false},
	{"$fe($f)", "", "", true},
	{"#if($fb($f))#end", "", "", true},
}

func c21Planner(opts []velty.Option) *velty.Planner {
	p := velty.New(opts...)
	reg := func(name string, fn interface{}) {
		sym.Assert(p.RegisterFunction(name, fn) == nil, "function registers")
	}
	e := func(b bool) error {
		if b {
			return errors.New("boom")
		}
		return nil
	}
	reg("fi", func(b bool) (int, error) { return 3, e(b) })
	reg("fs", func(b bool) (string, error) { return "s", e(b) })
	reg("fb", func(b bool) (bool, error) { return true, e(b) })
	reg("ff", func(b bool) (float64, error) { return 1.5, e(b) })
	reg("fl", func(b bool) ([]int, error) { return []int{1, 2}, e(b) })
	reg("fa", func(b bool) (interface{}, error) { return "s", e(b) })
	reg("fv", func(a int, b ...bool) (int, error) { return a, e(b[0]) })
	reg("fe", func(b bool) (string, error) { return "", e(b) })
	reg("idx", func(b bool) (int, error) { return 1, e(b) })
	reg("id", func(i int) int { return i })
	reg("cat", func(a, b string) string { return a + b })
	return p
}

func c21Vars(f bool) []kv {
	r := &c21Rec{I: 3}
	return []kv{v("f", f), v("nf", !f), v("x", 3), v("t", true), v("r", r), v("rs", []*c21Rec{r}), v("xs", []int{7, 8}), v("m", map[string]int{"s": 9}), v("tx", "$fi($f)"), v("te", "#if($fb($f))#end"), v("nest", "#if($x == 3)#evaluate($tx)#end")}
}

// C21_positions: a call that fails for some inputs, in every position, with and without panic on error.
func C21_positions() {
	pos := c21Positions[sym.Choice("pos", len(c21Positions))]
	f := sym.Bool("f")
	stop := sym.Choice("panic", 2) == 1
	var opts []velty.Option
	if stop {
		opts = []velty.Option{velty.PanicOnError(true)}
	}
	p := c21Planner(opts)
	vars := c21Vars(f)
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(pos.tpl))
	sym.Assert(err == nil, "compiles: "+pos.tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(st.IsValid(), "a new state is valid")
	err = ex.Exec(st)
	out := st.Buffer.String()
	sym.Assert((err != nil) == f, "an error is reported exactly when a called function fails: "+pos.tpl)
	sym.Assert(st.IsValid() == !f, "the state is invalid exactly when a called function failed: "+pos.tpl)
	if !f {
		sym.Assert(out == pos.ok, "the output without errors: "+pos.tpl)
	} else {
		sym.Assert(strings.Contains(err.Error(), "boom"), "the error of the function is reported: "+pos.tpl)
		if stop {
			sym.Assert(out == pos.prefix, "nothing is rendered after the failing call: "+pos.tpl)
		} else {
			sym.Assert(strings.HasPrefix(out, pos.prefix), "what precedes the failing call is rendered: "+pos.tpl)
			if !pos.loose {
				sym.Assert(strings.HasSuffix(out, "Z"), "what follows the failing call is rendered: "+pos.tpl)
			}
		}
	}
	// the next execution is not affected
	st.Reset()
	sym.Assert(st.IsValid() && st.Buffer.String() == "", "a reset state is valid and empty")
	st2 := ns()
	set(st2, c21Vars(false)...)
	sym.Assert(ex.Exec(st2) == nil && st2.IsValid() && st2.Buffer.String() == pos.ok, "another state is not affected: "+pos.tpl)
	sym.Reach("end")
}

// C21_several: several calls failing independently; calls in branches that are not taken.
func C21_several() {
	a, b, c, t := sym.Bool("a"), sym.Bool("b"), sym.Bool("c"), sym.Bool("t")
	stop := sym.Choice("panic", 2) == 1
	var opts []velty.Option
	if stop {
		opts = []velty.Option{velty.PanicOnError(true)}
	}
	p := c21Planner(opts)
	n := 0
	sym.Assert(p.RegisterFunction("cnt", func(b bool) (string, error) {
		n++
		if b {
			return "", errors.New("boom" + strconv.Itoa(n))
		}
		return "", nil
	}) == nil, "registers")
	tpl := "1$cnt($a)2#if($t)$cnt($b)3#{else}4#end#foreach($e in $xs)$cnt($c)5#end 6"
	vars := append(c21Vars(false), v("a", a), v("b", b), v("c", c))
	vars[3] = v("t", t)
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles")
	var st *est.State = ns()
	set(st, vars...)
	err = ex.Exec(st)
	fails, calls := 0, 0
	full, cut, stopped := "1", "1", false
	step := func(bad bool, text string) {
		calls++
		if bad {
			fails++
			stopped = true
		}
		full += text
		if !stopped {
			cut += text
		}
	}
	step(a, "2")
	if t {
		step(b, "3")
	} else {
		full += "4"
		if !stopped {
			cut += "4"
		}
	}
	step(c, "5")
	step(c, "5")
	full += " 6"
	if !stopped {
		cut += " 6"
	}
	sym.Assert((err != nil) == (fails > 0) && st.IsValid() == (fails == 0), "errors are reported")
	if stop {
		sym.Assert(st.Buffer.String() == cut, "the execution stops at the first error")
	} else {
		sym.Assert(st.Buffer.String() == full && n == calls, "the execution continues")
		sym.Assert(len(st.Errors) == fails, "every error is collected")
	}
	sym.Reach("end")
}
