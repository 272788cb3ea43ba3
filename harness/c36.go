package main

import (
	"html"
	"strconv"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

type c36Row struct {
	P byte
	S string
	I int
}

type C36Emb struct {
	P  byte
	EI int
	ES string
}

func c36Unnamed(i int) interface{} {
	return struct {
		U  byte
		UI int
	}{1, i}
}

type c36Scope struct {
	p     *velty.Planner
	vars  []kv // what the scope sees
	tpls  []*c36Tpl
	count int
}

type c36Tpl struct {
	ex  *est.Execution
	ns  func() *est.State
	own []kv
	out string
	emb C36Emb
	un  interface{}
}

func (s *c36Scope) sees(name string) (kv, bool) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			return s.vars[i], true
		}
	}
	return kv{}, false
}

func c36Show(x interface{}, esc bool) string {
	switch a := x.(type) {
	case int:
		return strconv.Itoa(a)
	case string:
		if esc {
			return html.EscapeString(a)
		}
		return a
	case bool:
		return strconv.FormatBool(a)
	case c36Row:
		return c36Show(a.S, esc) + strconv.Itoa(a.I)
	case []int:
		w := ""
		for _, i := range a {
			w += strconv.Itoa(i) + ";"
		}
		return w
	}
	panic("kind")
}

// c36Compile compiles a template that shows what the scope sees of the names.
func (s *c36Scope) compile(esc bool, emb C36Emb) {
	tpl, want := "", ""
	for _, n := range []string{"a", "b", "c", "d"} {
		x, ok := s.sees(n)
		if !ok {
			tpl += "<$" + n + ">"
			want += "<$" + n + ">"
			continue
		}
		switch x.val.(type) {
		case c36Row:
			tpl += "<$" + n + ".S$" + n + ".I>"
		case []int:
			tpl += "<#foreach($e" + strconv.Itoa(s.count) + " in $" + n + ")$e" + strconv.Itoa(s.count) + ";#end>"
		default:
			tpl += "<$" + n + ">"
		}
		want += "<" + c36Show(x.val, esc) + ">"
	}
	s.count++
	tpl += "$UI$n2$EI$ES#set($l = $EI + 1)$l$twice($EI)#evaluate($src)"
	want += strconv.Itoa(emb.EI+1) + strconv.Itoa(emb.EI+2) + strconv.Itoa(emb.EI) + c36Show(emb.ES, esc) + strconv.Itoa(emb.EI+1) + strconv.Itoa(2*emb.EI) + "(" + c36Show(emb.ES, esc) + ")"
	ex, ns, err := s.p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	s.tpls = append(s.tpls, &c36Tpl{ex, ns, append([]kv{}, s.vars...), want, emb, c36Unnamed(emb.EI + 1)})
}

func (t *c36Tpl) run() {
	st := t.ns()
	set(st, v("src", "($ES)"), v("n1", t.emb.EI+2))
	sym.Assert(st.EmbedValue(t.un) == nil, "the embedded value is set")
	seen := map[string]bool{}
	for i := len(t.own) - 1; i >= 0; i-- {
		if !seen[t.own[i].name] {
			seen[t.own[i].name] = true
			set(st, t.own[i])
		}
	}
	sym.Assert(st.EmbedValue(t.emb) == nil, "the embedded value is set")
	sym.Assert(t.ex.Exec(st) == nil, "executes")

	sym.Assert(st.Buffer.String() == t.out, "what the scope sees")
}

// C36_scopes: definitions and compilations of a planner and of planners derived from it in any order.
func C36_scopes() {
	esc := sym.Choice("esc", 2) == 1
	x, y := sym.Int("x"), sym.Int("y")
	s := sym.StrOf("s", 0, 1, "a<")
	emb := C36Emb{1, x, s}
	root := velty.New(velty.EscapeHTML(esc), velty.BufferSize(4), velty.CacheSize(1))
	sym.Assert(root.RegisterFunction("twice", func(i int) int { return 2 * i }) == nil, "function registers")
	scopes := []*c36Scope{{p: root}}
	def := func(sc *c36Scope, name string, val interface{}) {
		sym.Assert(sc.p.DefineVariable(name, val) == nil, "variable can be defined")
		if _, ok := sc.sees(name); !ok { // the first definition of a name counts
			sc.vars = append(sc.vars, v(name, val))
		}
	}
	def(scopes[0], "src", "")
	scopes[0].vars = nil
	late := esc // further definitions in between
	sym.Assert(root.DefineVariable("n1", 0, "n2") == nil, "variable can be defined")
	sym.Assert(root.EmbedVariable(c36Unnamed(0)) == nil, "type can be embedded")
	if late {
		sym.Assert(root.DefineVariable("between", byte(1)) == nil, "variable can be defined")
	}
	sym.Assert(root.EmbedVariable(C36Emb{}) == nil, "type can be embedded")
	def(scopes[0], "a", x)
	vals := []interface{}{y, s, c36Row{1, s, y}, []int{x, y}, true}
	n := sym.N(4, 5)
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		sc := scopes[sym.Choice("who"+k, len(scopes))]
		switch sym.Choice("op"+k, 3) {
		case 0:
			if len(scopes) < 3 {
				scopes = append(scopes, &c36Scope{p: sc.p.New(), vars: append([]kv{}, sc.vars...)})
			} else {
				sym.Assume(false)
			}
		case 1:
			name := []string{"a", "b", "c", "d"}[sym.Choice("name"+k, 4)]
			def(sc, name, vals[(i+2*len(sc.vars))%len(vals)])
		default:
			sc.compile(esc, emb)
		}
	}
	for _, sc := range scopes {
		sc.compile(esc, emb)
	}
	for _, sc := range scopes {
		for _, t := range sc.tpls {
			t.run()
		}
	}
	for i := len(scopes) - 1; i >= 0; i-- {
		for _, t := range scopes[i].tpls {
			t.run()
		}
	}
	sym.Reach("end")
}
