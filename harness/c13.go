package main

import (
	"strconv"

	"github.com/viant/velty"
	"veltyverif/sym"
)

type c13Rec struct {
	P byte
	N int
	S string
	Q byte
}

func (r *c13Rec) Get() int { return r.N }

// c13W interprets the statements of a block next to the template.
type c13W struct {
	x, acc int
	s      string
	b      bool
	xs     []int
	r      *c13Rec
	calls  []int
	model  []int
	out    string
}

const c13Kinds = 12

// stmt returns the text of the i-th statement of the given kind.
func c13Stmt(kind, i int) string {
	k := strconv.Itoa(i)
	switch kind {
	case 0:
		return "<" + k + ">"
	case 1:
		return "$x"
	case 2:
		return "#set($acc = $acc * 3 + " + k + ")"
	case 3:
		return "#if($b)T" + k + "#else F" + k + "#end"
	case 4:
		return "#foreach($e in $xs)$e,#end"
	case 5:
		return "$t(" + k + ")"
	case 6:
		return "#set($s = $s + \"" + k + "\")"
	case 7:
		return "#for($i" + k + " = 0; $i" + k + " < 2; $i" + k + "++)#set($r.N = $r.N + " + k + ")#end"
	case 8:
		return "#if($b)#set($b = false)#elseif($x > 3)#set($b = true)#end"
	case 9:
		return "${s}"
	case 10:
		return "$r.Get()"
	default:
		return "#evaluate($tpl)"
	}
}

func (w *c13W) run(kind, i int) {
	k := strconv.Itoa(i)
	switch kind {
	case 0:
		w.out += "<" + k + ">"
	case 1:
		w.out += strconv.Itoa(w.x)
	case 2:
		w.acc = w.acc*3 + i
	case 3:
		if w.b {
			w.out += "T" + k
		} else {
			w.out += " F" + k
		}
	case 4:
		for _, e := range w.xs {
			w.out += strconv.Itoa(e) + ","
		}
	case 5:
		w.model = append(w.model, i)
		w.out += strconv.Itoa(i + 100)
	case 6:
		w.s += k
	case 7:
		w.r.N += 2 * i
	case 8:
		if w.b {
			w.b = false
		} else if w.x > 3 {
			w.b = true
		}
	case 9:
		w.out += w.s
	case 10:
		w.out += strconv.Itoa(w.r.N)
	default:
		w.out += "<" + w.s + ">"
	}
}

const c13Hosts = 9

// c13Check runs a block of statements in a host body and compares everything it did with the model.
func c13Check(host int, kinds []int) {
	x, n := sym.Int("x"), sym.Int("n")
	b := sym.Bool("b")
	xs := []int{sym.Int("e0"), sym.Int("e1")}
	r := &c13Rec{P: 0xA5, N: n, S: "s", Q: 0x5A}
	mr := *r
	w := &c13W{x: x, acc: 1, s: "s", b: b, xs: xs, r: &mr}
	body := ""
	for i, k := range kinds {
		body += c13Stmt(k, i+1)
	}
	run := func() {
		for i, k := range kinds {
			w.run(k, i+1)
		}
	}
	p := velty.New()
	vars := []kv{v("x", x), v("acc", 1), v("s", "s"), v("b", b), v("xs", xs), v("r", r), v("tpl", "<${s}>"), v("yes", true), v("no", false), v("two", []int{7, 8})}
	for _, d := range vars {
		sym.Assert(p.DefineVariable(d.name, d.val) == nil, "variable can be defined")
	}
	var calls []int
	sym.Assert(p.RegisterFunction("t", func(i int) int { calls = append(calls, i); return i + 100 }) == nil, "function registers")
	var tpl string
	switch host {
	case 0:
		tpl = body
		run()
	case 1:
		tpl = "#if($yes)" + body + "#end"
		run()
	case 2:
		tpl = "#if($no)none#else" + body + "#end"
		run()
	case 3:
		tpl = "#if($no)none#elseif($yes)" + body + "#{else}other#end"
		run()
	case 4:
		tpl = "#foreach($two_ in $two)" + body + "#end"
		run()
		run()
	case 5:
		tpl = "#for($i = 0; $i < 2; $i++)" + body + "#end"
		run()
		run()
	case 6:
		tpl = "#foreach($j in [0...2])#if($j == 0)" + body + "#{else}" + body + "#end#end"
		run()
		run()
	case 7:
		tpl = "#if($yes)#foreach($j in [0...1])" + body + "#end|#end" + body
		run()
		w.out += "|"
		run()
	default:
		tpl = "(" + body + "#if($no)none#end)"
		w.out = "("
		run()
		w.out += ")"
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "template executes: "+tpl)
	sym.Assert(st.Buffer.String() == w.out, "the outputs of all statements in source order: "+tpl)
	read := func(name string) interface{} {
		f, ok := st.StateType.ValueAccessor(name)
		sym.Assert(ok, "variable is known")
		return f.Interface(st.MemPtr)
	}
	sym.Assert(read("acc").(int) == w.acc && read("s").(string) == w.s && read("b").(bool) == w.b, "every assignment was executed once, in order: "+tpl)
	sym.Assert(*r == mr, "every field assignment was executed once, nothing else changed: "+tpl)
	sym.Assert(len(calls) == len(w.model), "every call happened exactly once: "+tpl)
	for i := range calls {
		sym.Assert(calls[i] == w.model[i], "calls happen in source order: "+tpl)
	}
	sym.Reach("end")
}

// C13_short: all blocks of up to two (thorough: three) statements in every kind of body.
func C13_short() {
	host := sym.Choice("host", c13Hosts)
	n := sym.Choice("n", sym.N(3, 4))
	kinds := make([]int, n)
	for i := range kinds {
		if i == 2 {
			kinds[i] = sym.Choice("k2", 3)*4 + (kinds[0]+kinds[1])%4
			continue
		}
		kinds[i] = sym.Choice("k"+strconv.Itoa(i), c13Kinds)
	}
	c13Check(host, kinds)
}

// C13_long: blocks of every length through the specialised and the generic implementation.
func C13_long() {
	host := sym.Choice("host", c13Hosts)
	n := 3 + sym.Choice("n", sym.N(16, 22))
	pat := sym.Choice("pattern", sym.N(2, 6))
	kinds := make([]int, n)
	for i := range kinds {
		switch pat {
		case 0:
			kinds[i] = []int{2, 5, 6, 1}[i%4]
		case 1:
			kinds[i] = (i*5 + n) % c13Kinds
		default:
			kinds[i] = (i*[]int{7, 11, 1, 5}[pat-2] + pat + n) % c13Kinds
		}
	}
	c13Check(host, kinds)
}
