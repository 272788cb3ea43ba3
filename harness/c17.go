package main

import (
	"errors"
	"strconv"
	"sync"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"veltyverif/sym"
)

func c17Pool(size int) (*velty.Pool, *est.Execution) {
	p := velty.New(velty.BufferSize(4))
	sym.Assert(p.DefineVariable("x", 0) == nil, "variable can be defined")
	sym.Assert(p.RegisterFunction("fail", func(i int) (int, error) { return i, errors.New("failed") }) == nil, "function registers")
	ex, ns, err := p.Compile([]byte("<$x>#if($x < 0)$fail($x)#end"))
	sym.Assert(err == nil, "template compiles")
	return velty.NewPool(size, ns), ex
}

func c17Fresh(st *est.State) {
	sym.Assert(st.Buffer.String() == "", "a state from the pool has an empty output")
	sym.Assert(st.IsValid() && len(st.Errors) == 0, "a state from the pool has no errors")
}

// C17_history: any sequence of gets and puts.
func C17_history() {
	size := []int{0, 1, 2, 3}[sym.Choice("size", 4)]
	p, ex := c17Pool(size)
	steps := sym.N(5, 7)
	var out []*est.State // handed out and not put back
	for i := 0; i < steps; i++ {
		k := strconv.Itoa(i)
		get := len(out) == 0 || len(out) < 3 && sym.Choice("get"+k, 2) == 1
		if get {
			st := p.State()
			for _, o := range out {
				sym.Assert(o != st, "a state in use is not handed out again")
			}
			c17Fresh(st)
			if i == 0 || sym.Choice("unset"+k, 2) == 1 {
				sym.Assert(ex.Exec(st) == nil && st.Buffer.String() == "<0>", "a state from the pool holds no value of an earlier user")
				st.Buffer.Reset()
			}
			x := sym.Int("x" + k)
			set(st, v("x", x))
			err := ex.Exec(st)
			sym.Assert((err != nil) == (x < 0), "an execution fails exactly when a function does")
			sym.Assert(st.Buffer.String() == "<"+strconv.Itoa(x)+">"+c17Tail(x), "a state from the pool renders its own values")
			out = append(out, st)
		} else {
			j := 0
			if len(out) > 1 {
				j = sym.Choice("which"+k, len(out))
			}
			p.Put(out[j])
			out = append(append([]*est.State{}, out[:j]...), out[j+1:]...)
		}
	}
	sym.Reach("end")
}

func c17Tail(x int) string {
	if x < 0 {
		return strconv.Itoa(x)
	}
	return ""
}

// C17_dirty: whatever is done with a state before it is put back.
func C17_dirty() {
	p, ex := c17Pool(sym.Choice("size", 3))
	a := p.State()
	c17Fresh(a)
	for i := 0; i < 2; i++ {
		switch sym.Choice("do"+strconv.Itoa(i), 5) {
		case 0:
			a.Buffer.AppendString("left over")
		case 1:
			a.AddError(errors.New("left over"))
		case 2:
			set(a, v("x", -5))
			ex.Exec(a)
		case 3:
			a.Reset()
		}
	}
	p.Put(a)
	for i := 0; i < 3; i++ {
		b := p.State()
		c17Fresh(b)
		want := "<" + strconv.Itoa(i) + ">"
		if sym.Choice("unset"+strconv.Itoa(i), 2) == 1 {
			want = "<0>"
		} else {
			set(b, v("x", i))
		}
		sym.Assert(ex.Exec(b) == nil, "execution succeeds")
		sym.Assert(b.Buffer.String() == want, "a state from the pool behaves like a new one")
		if sym.Choice("keep"+strconv.Itoa(i), 2) == 0 {
			p.Put(b)
		}
	}
	sym.Reach("end")
}

// C17_concurrent: gets and puts from several goroutines in every interleaving.
func C17_concurrent() {
	p, ex := c17Pool(sym.Choice("size", 3))
	n := sym.N(2, 3)
	x := sym.IntIn("x", 0, 1000)
	pre := sym.Choice("pre", 2)
	for i := 0; i < pre; i++ {
		p.Put(p.State())
	}
	outs := make([]string, n)
	held := make([]*est.State, n)
	fns := make([]func(), n)
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		i := i
		fns[i] = func() {
			for k := 0; k < 2; k++ {
				if n > 2 && k == 1 {
					break
				}
				st := p.State()
				c17Fresh(st)
				mu.Lock()
				held[i] = st
				for j := range held {
					sym.Assert(j == i || held[j] != st, "no two users hold one state")
				}
				mu.Unlock()
				set(st, v("x", x+i))
				sym.Assert(ex.Exec(st) == nil, "execution succeeds")
				outs[i] = st.Buffer.String()
				sym.Assert(outs[i] == "<"+strconv.Itoa(x+i)+">", "every user gets its own output")
				mu.Lock()
				held[i] = nil
				mu.Unlock()
				p.Put(st)
			}
		}
	}
	sym.Go(fns...)
	sym.Reach("end")
}

// C17_take: a state claimed by several goroutines at once, in every interleaving.
func C17_take() {
	n := sym.N(3, 4)
	var st *est.State
	if sym.Choice("new", 2) == 0 {
		st = &est.State{}
	} else {
		_, ns, err := velty.New().Compile([]byte("a"))
		sym.Assert(err == nil, "template compiles")
		st = ns()
	}
	taken := sym.Choice("before", 2) == 1
	if taken {
		sym.Assert(st.Take(), "a new state can be taken")
	}
	got := make([]bool, n)
	fns := make([]func(), n)
	for i := range fns {
		i := i
		fns[i] = func() { got[i] = st.Take() }
	}
	sym.Go(fns...)
	owners := 0
	for _, g := range got {
		if g {
			owners++
		}
	}
	if taken {
		sym.Assert(owners == 0, "a state in use can not be taken")
	} else {
		sym.Assert(owners == 1, "exactly one goroutine takes a state")
	}
	sym.Assert(!st.Take(), "a state in use can not be taken again")
	sym.Reach("end")
}
