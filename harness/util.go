package main

import (
	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

// kv is a variable definition together with the value set on the state.
type kv struct {
	name string
	val  interface{}
}

func v(name string, val interface{}) kv { return kv{name, val} }

// plan compiles tpl for the given variables; the harness fails when that does not succeed.
func plan(tpl string, opts []velty.Option, vars ...kv) (*est.Execution, func() *est.State) {
	p := velty.New(opts...)
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable "+x.name+" can be defined")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	return ex, ns
}

// set stores the values of vars on a state.
func set(st *est.State, vars ...kv) {
	for _, x := range vars {
		sym.Assert(st.SetValue(x.name, x.val) == nil, "SetValue "+x.name+" succeeds")
	}
}

// render compiles, executes and returns the output.
func render(tpl string, vars ...kv) string {
	ex, ns := plan(tpl, nil, vars...)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "execution succeeds: "+tpl)
	return st.Buffer.String()
}

// compiles reports whether tpl compiles with the given variables.
func compiles(tpl string, vars ...kv) bool {
	p := velty.New()
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable "+x.name+" can be defined")
	}
	_, _, err := p.Compile([]byte(tpl))
	return err == nil
}

func b2s(b bool) string {
	if b {
		return "T"
	}
	return "F"
}

func choose(name string, xs ...string) string { return xs[sym.Choice(name, len(xs))] }
