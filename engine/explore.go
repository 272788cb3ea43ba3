package main

// Path exploration by re-execution with recorded decision prefixes.

import (
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	val   uint64 // choice index or concretised value
	taken bool
	kind  uint8 // 0 branch, 1 concretise, 2 choice, 3 assume/forced
}

type item struct {
	h      *Harness
	prefix []Decision
}

type Harness struct {
	Name  string
	fn    *ssa.Function
	queue []item
	stats HStats
	cand  map[string]int // candidates per key
	busy  int
	t0    time.Time
}

type HStats struct {
	Paths, OK, Infeasible, Unsupported, Limit, Pruned int
	Asserts, Folded, Solved, Undecided                int
	Branches                                          int
	Steps                                             int64
	Reach                                             map[string]int
	Reasons                                           map[string]int
	Known                                             map[string]int
	Samples                                           []string
	MaxPath                                           int
}

type Input struct {
	Name string
	Kind string // int, uint, bool, float, str, choice
	t    *Term
	strs []*Term
	val  uint64 // choice
	w    uint8
	sgn  bool
}

type Obs struct {
	Label string
	v     Value
	rt    *RT
}

type Case struct { // one concrete input, for native replay
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Tier    int               `json:"tier"`
	expect  []string          // expected observations ("?" unknown)
	why     string            // "" for validation of a completed path
	kind    string
	model   string
}

type Path struct {
	h         *Harness
	prefix    []Decision
	pos       int
	dec       []Decision
	known     map[*Term]bool
	dom       map[*Term]*[4]uint64
	multi     map[*Term]bool
	model     Model
	inputs    []Input
	names     map[string]int
	obs       []Obs
	lastPanic *TargetPanic
	opts      map[string]int
	conc      int
	unknown   int
	reach     []string
	pcN       int
	pc        []*Term
	stdout    int
	locks     map[Ptr]*lockSt
	pools     map[Ptr][]poolItem
}

type Explorer struct {
	P         *Program
	hs        []*Harness
	mu        sync.Mutex
	cond      *sync.Cond
	rr        int
	active    int
	stop      bool
	deadline  time.Time
	tier      int
	seed      int64
	maxSteps  int
	solverMS  int
	cands     []Case
	valid     []Case
	vcap      int
	used      map[string]bool
	usedIntr  map[string]bool
	queries   int
	fallbk    int
	solverT   time.Duration
	solverMax time.Duration
	late      map[string]bool
	maxPaths  int
	dropped   int
	trace     bool
}

func (x *Explorer) lateGlobal(g *ssa.Global) {
	x.mu.Lock()
	x.late[g.String()] = true
	x.mu.Unlock()
}

func (x *Explorer) next() (item, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop || time.Now().After(x.deadline) {
			x.stop = true
			x.cond.Broadcast()
			return item{}, false
		}
		for i := 0; i < len(x.hs); i++ {
			h := x.hs[(x.rr+i)%len(x.hs)]
			if n := len(h.queue); n > 0 {
				if x.maxPaths > 0 && h.stats.Paths >= x.maxPaths {
					x.dropped += n
					h.stats.Pruned += n
					h.queue = nil
					continue
				}
				x.rr = (x.rr + i + 1) % len(x.hs)
				it := h.queue[n-1]
				h.queue = h.queue[:n-1]
				h.stats.Paths++
				x.active++
				return it, true
			}
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return item{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) push(h *Harness, prefix []Decision) {
	x.mu.Lock()
	h.queue = append(h.queue, item{h, prefix})
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) done() {
	x.mu.Lock()
	x.active--
	x.mu.Unlock()
	x.cond.Broadcast()
}

func (x *Explorer) Run(workers int) {
	var wg sync.WaitGroup
	x.cond = sync.NewCond(&x.mu)
	for _, h := range x.hs {
		h.queue = []item{{h, nil}}
		h.stats.Reach = map[string]int{}
		h.stats.Reasons = map[string]int{}
		h.stats.Known = map[string]int{}
		h.cand = map[string]int{}
	}
	// wake waiting workers when the deadline passes
	go func() {
		time.Sleep(time.Until(x.deadline) + 50*time.Millisecond)
		x.cond.Broadcast()
	}()
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := NewWorker(x.P, x)
			w.s = NewSolver(x.solverMS)
			defer w.s.Close()
			w.maxSteps = 1 << 40
			if err := w.initAll(); err != nil {
				fatal("package initialisation: %v", err)
			}
			for {
				it, ok := x.next()
				if !ok {
					break
				}
				w.runPath(it)
				x.done()
			}
			x.mu.Lock()
			x.queries += w.s.Queries
			x.fallbk += w.s.Fallbk
			x.solverT += w.s.Time
			if w.s.MaxTime > x.solverMax {
				x.solverMax = w.s.MaxTime
			}
			for f := range w.used {
				x.used[f.String()] = true
			}
			for f := range w.usedIntr {
				x.usedIntr[f] = true
			}
			x.mu.Unlock()
		}(i)
	}
	wg.Wait()
	for _, h := range x.hs {
		h.stats.Pruned += len(h.queue)
	}
}

func (w *Worker) initAll() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case *TargetPanic:
				err = fmt.Errorf("panic %s at %s", e.msg, e.trace)
			case abortPath:
				err = fmt.Errorf("%s: %s at %s", e.kind, e.reason, w.where())
			default:
				err = fmt.Errorf("internal: %v\n%s", r, debug.Stack())
			}
		}
	}()
	w.p = NewPool()
	w.s.NewPath()
	w.path = &Path{known: map[*Term]bool{}, opts: map[string]int{}, dom: map[*Term]*[4]uint64{}, multi: map[*Term]bool{}, names: map[string]int{}}
	main := w.P.pkgs[harnessPkg]
	w.callFn(nil, w.getFn(main.Func("init")), nil, nil)
	w.frozen = w.nextObj
	return nil
}

func (w *Worker) runPath(it item) {
	x := w.x
	w.rollback()
	w.nextObj = w.frozen
	w.pathID++
	w.p = NewPool()
	w.s.NewPath()
	w.steps, w.depth, w.cur = 0, 0, nil
	w.maxSteps = x.maxSteps
	w.hbOn, w.hb, w.tid, w.sched = false, nil, 0, nil
	p := &Path{h: it.h, prefix: it.prefix, known: map[*Term]bool{}, dom: map[*Term]*[4]uint64{}, multi: map[*Term]bool{}, names: map[string]int{}, opts: map[string]int{}, model: Model{}}
	w.path = p
	status, reason := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case abortPath:
				status, reason = e.kind, e.reason
			case *TargetPanic:
				status, reason = "panic", e.msg+" at "+e.trace
			default:
				status, reason = "internal", fmt.Sprintf("%v at %s", r, w.where())
				if os.Getenv("SYM_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		w.callFn(nil, w.getFn(it.h.fn), nil, nil)
	}()
	if w.sched != nil {
		w.sched.kill()
	}
	if x.trace {
		fmt.Fprintf(os.Stderr, "[%s] path %d decisions, %d steps: %s %s\n", it.h.Name, len(p.dec), w.steps, status, reason)
	}
	replayed := p.pos < len(p.prefix) // ended inside the prefix: nothing new
	x.mu.Lock()
	st := &it.h.stats
	st.Steps += int64(w.steps)
	if len(p.dec) > st.MaxPath {
		st.MaxPath = len(p.dec)
	}
	for _, r := range p.reach {
		st.Reach[r]++
	}
	switch status {
	case "ok":
		st.OK++
	case "infeasible":
		st.Infeasible++
	case "unsupported", "internal":
		st.Unsupported++
		st.Reasons[trunc(reason, 160)]++
	case "limit", "stack":
		st.Limit++
		st.Reasons[trunc(reason, 160)]++
	}
	nvalid := 0
	for _, c := range x.valid {
		if c.Harness == it.h.Name {
			nvalid++
		}
	}
	takeValid := nvalid < x.vcap
	x.mu.Unlock()
	_ = replayed
	switch status {
	case "ok":
		if takeValid {
			if m, ok := w.anyModel(w.p.T); ok {
				c := w.mkCase(m)
				x.mu.Lock()
				x.valid = append(x.valid, c)
				if len(st.Samples) < 3 {
					st.Samples = append(st.Samples, c.model)
				}
				x.mu.Unlock()
			}
		}
	case "panic":
		w.candidate(w.p.T, "panic", "uncaught panic: "+reason)
	case "memfault":
		w.candidate(w.p.T, "memfault", "memory access outside its object: "+reason)
	case "race", "deadlock":
		w.candidate(w.p.T, status, reason)
	case "limit", "stack":
		w.candidate(w.p.T, status, "no termination within the step bound: "+reason)
	case "unsupported", "internal":
		w.candidate(w.p.T, "unsupported", "path not encodable: "+reason)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (p *Path) vars() []*Term {
	var vs []*Term
	for _, in := range p.inputs {
		if in.t != nil {
			vs = append(vs, in.t)
		}
		vs = append(vs, in.strs...)
	}
	return vs
}

// anyModel finds inputs that follow the current path and satisfy t.
func (w *Worker) anyModel(t *Term) (Model, bool) {
	vs := w.path.vars()
	if t.isTrue() && w.path.model != nil {
		m := Model{}
		for _, v := range vs {
			m[v] = w.path.model[v]
		}
		return m, true
	}
	if len(w.path.pc) > 0 {
		c := t
		if t.isTrue() {
			c = w.path.pc[len(w.path.pc)-1]
		}
		if g := w.guess(c, true, false); g != nil && g[0] != nil {
			return g[0], true
		}
	}
	r, m := w.s.Check(w.p, t, vs)
	if r != Sat {
		return nil, false
	}
	return m, true
}

// candidate records a possible violation for native confirmation.
func (w *Worker) candidate(t *Term, kind, why string) {
	x := w.x
	h := w.path.h
	key := kind + "|" + trunc(why, 60)
	x.mu.Lock()
	n := h.cand[key]
	lim := 4
	if kind == "unsupported" {
		lim = 10
	}
	skip := n >= lim
	if !skip {
		h.cand[key]++
	}
	x.mu.Unlock()
	if skip {
		return
	}
	m, ok := w.anyModel(t)
	if !ok {
		return
	}
	c := w.mkCase(m)
	c.why, c.kind = why, kind
	x.mu.Lock()
	x.cands = append(x.cands, c)
	x.mu.Unlock()
}

func (w *Worker) mkCase(m Model) Case {
	c := Case{Harness: w.path.h.Name, Inputs: map[string]string{}, Tier: w.x.tier}
	var desc []string
	for _, in := range w.path.inputs {
		var s string
		switch in.Kind {
		case "choice":
			s = fmt.Sprint(in.val)
			desc = append(desc, in.Name+"="+s)
		case "str":
			b := make([]byte, len(in.strs))
			for i, t := range in.strs {
				b[i] = byte(m[t])
			}
			s = fmt.Sprintf("%x", b)
			desc = append(desc, fmt.Sprintf("%s=%q", in.Name, b))
		case "float":
			s = fmt.Sprintf("%x", m[in.t])
			desc = append(desc, fmt.Sprintf("%s=%v", in.Name, math.Float64frombits(m[in.t])))
		default:
			s = fmt.Sprintf("%x", m[in.t])
			if in.sgn {
				desc = append(desc, fmt.Sprintf("%s=%d", in.Name, sx(m[in.t], in.w)))
			} else {
				desc = append(desc, fmt.Sprintf("%s=%d", in.Name, m[in.t]))
			}
		}
		c.Inputs[in.Name] = s
	}
	c.model = strings.Join(desc, " ")
	memo := map[*Term]*Term{}
	for _, o := range w.path.obs {
		c.expect = append(c.expect, o.Label+"="+w.concreteStr(o.v, m, memo))
	}
	return c
}

// concreteStr evaluates an observed value under a model ("?" when it involves an uninterpreted function).
func (w *Worker) concreteStr(v Value, m Model, memo map[*Term]*Term) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%x", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, y := range x.b {
			switch z := y.(type) {
			case uint64:
				b[i] = byte(z)
			case *Term:
				r, ok := w.p.eval(z, m, memo)
				if !ok {
					return "?"
				}
				b[i] = byte(r.val)
			}
		}
		return fmt.Sprintf("%x", b)
	}
	return "?"
}

// ---- branching ----

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

func (p *Path) addDec(d Decision) { p.dec = append(p.dec, d) }

func (w *Worker) branchV(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return w.branch(v.(*Term))
}

// assertPC adds t to the path condition.
func (w *Worker) assertPC(t *Term) {
	p := w.path
	if t.isTrue() {
		return
	}
	p.pcN++
	p.pc = append(p.pc, t)
	if t.op == OpNot {
		p.known[t.args[0]] = false
	} else {
		p.known[t] = true
	}
	w.s.Assert(w.p, t)
	if t.nv == 1 {
		if t.v.s == BV8 {
			d := p.domain(t.v)
			for b := 0; b < 256; b++ {
				if d[b>>6]>>(b&63)&1 == 1 && !evalByteBool(t, uint64(b)) {
					d[b>>6] &^= 1 << (b & 63)
				}
			}
		}
	} else {
		w.markMulti(t, map[*Term]bool{})
	}
	// keep the cached model if it still satisfies the path
	if p.model != nil {
		r, ok := w.p.eval(t, p.model, map[*Term]*Term{})
		if !ok || r.isFalse() {
			p.model = nil
		}
	}
}

func (w *Worker) markMulti(t *Term, seen map[*Term]bool) {
	if seen[t] || t.nv == 0 {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		w.path.multi[t] = true
	}
	for _, a := range t.args {
		w.markMulti(a, seen)
	}
}

func (p *Path) domain(v *Term) *[4]uint64 {
	d := p.dom[v]
	if d == nil {
		d = &[4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		p.dom[v] = d
	}
	return d
}

func evalByteBool(t *Term, x uint64) bool { return evalByte(t, x) != 0 }

// evalByte evaluates a term over a single 8-bit variable.
func evalByte(t *Term, x uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return x
	case OpNot:
		return 1 ^ evalByte(t.args[0], x)
	case OpAnd:
		return evalByte(t.args[0], x) & evalByte(t.args[1], x)
	case OpOr:
		return evalByte(t.args[0], x) | evalByte(t.args[1], x)
	case OpIte:
		if evalByte(t.args[0], x) != 0 {
			return evalByte(t.args[1], x)
		}
		return evalByte(t.args[2], x)
	case OpEq:
		return b2u(evalByte(t.args[0], x) == evalByte(t.args[1], x))
	case OpUlt:
		return b2u(evalByte(t.args[0], x) < evalByte(t.args[1], x))
	case OpSlt:
		w := t.args[0].s.W
		return b2u(sx(evalByte(t.args[0], x), w) < sx(evalByte(t.args[1], x), w))
	case OpZext:
		return evalByte(t.args[0], x)
	case OpSext:
		return uint64(sx(evalByte(t.args[0], x), t.args[0].s.W)) & mask(t.s.W)
	case OpExtract:
		return evalByte(t.args[0], x) >> (t.val & 255) & mask(t.s.W)
	case OpConcat:
		return evalByte(t.args[0], x)<<t.args[1].s.W | evalByte(t.args[1], x)
	}
	var a, b uint64
	a = evalByte(t.args[0], x)
	m := mask(t.s.W)
	if len(t.args) > 1 {
		b = evalByte(t.args[1], x)
	}
	w := t.args[0].s.W
	switch t.op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpBNot:
		return ^a & m
	case OpNeg:
		return -a & m
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		sa, sb := sx(a, w), sx(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OpSRem:
		sa, sb := sx(a, w), sx(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	}
	panic(abortPath{"unsupported", fmt.Sprintf("byte evaluation of op %d", t.op)})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// feasible reports whether each side of t is possible on this path.
func (w *Worker) feasible(t *Term) (yes, no bool) {
	p := w.path
	if t.nv == 1 && t.v.s == BV8 {
		d := p.domain(t.v)
		var ty, tn bool
		var wy, wn int
		for b := 0; b < 256 && !(ty && tn); b++ {
			if d[b>>6]>>(b&63)&1 == 1 {
				if evalByteBool(t, uint64(b)) {
					ty, wy = true, b
				} else {
					tn, wn = true, b
				}
			}
		}
		if !ty || !tn {
			return ty, tn
		}
		_, _ = wy, wn
		if !p.multi[t.v] {
			return true, true
		}
	}
	vs := p.vars()
	var haveY, haveN bool
	if p.model != nil {
		if r, ok := w.p.eval(t, p.model, map[*Term]*Term{}); ok {
			if r.isTrue() {
				haveY = true
			} else {
				haveN = true
			}
		}
	}
	if !haveY || !haveN {
		if m := w.guess(t, !haveY, !haveN); m != nil {
			if m[0] != nil {
				haveY = true
				if p.model == nil {
					p.model = m[0]
				}
			}
			if m[1] != nil {
				haveN = true
				if p.model == nil {
					p.model = m[1]
				}
			}
		}
	}
	if !haveY {
		r, m := w.s.Check(w.p, t, vs)
		if r == Unknown {
			p.unknown++
		}
		haveY = r != Unsat
		if r == Sat && p.model == nil {
			p.model = m
			if !haveN {
				// the model may also help decide the other side later
			}
		}
	}
	if !haveN {
		r, _ := w.s.Check(w.p, w.p.Not(t), nil)
		if r == Unknown {
			p.unknown++
		}
		haveN = r != Unsat
	}
	return haveY, haveN
}

var guessInts = []uint64{0, 1, ^uint64(0), 2, 7, ^uint64(4), 1 << 40, ^uint64(1 << 40)}
var guessFloats = []float64{0, 1, -1, 2.5, -3.5, 7, 1e10, -1e10, math.NaN(), math.Inf(1), math.Inf(-1)}

// guess looks for witnesses of t and of its negation among a few values of the numeric
// variables of t; a witness must satisfy the whole path condition. It only saves solver calls.
func (w *Worker) guess(t *Term, needY, needN bool) *[2]Model {
	p := w.path
	var vs []*Term
	var consts []float64
	seen := map[*Term]bool{}
	big := false
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || x.nv == 0 {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			if a.op == OpConst && len(consts) < 6 {
				if a.s.K == SFP {
					consts = append(consts, math.Float64frombits(a.val))
				} else if a.s.K == SBV && a.s.W == 64 {
					consts = append(consts, float64(int64(a.val)))
				}
			}
		}
		if x.op == OpVar {
			vs = append(vs, x)
			if x.s.K != SBV && x.s.K != SFP {
				big = true
			}
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	if p.model == nil {
		for _, c := range p.pc {
			walk(c)
		}
	}
	if big || len(vs) == 0 || len(vs) > 2 || len(seen) > 200 || len(p.pc) > 60 {
		return nil
	}
	for _, v := range vs {
		if v.s.W == 8 {
			return nil
		}
	}
	base := Model{}
	if p.model != nil {
		for k, v := range p.model {
			base[k] = v
		}
	}
	for _, v := range p.vars() {
		if _, ok := base[v]; !ok {
			base[v] = 0
		}
	}
	vals := func(v *Term) []uint64 {
		if v.s.K == SFP {
			var out []uint64
			for _, f := range append(consts[:len(consts):len(consts)], guessFloats...) {
				out = append(out, math.Float64bits(f))
			}
			return out
		}
		var out []uint64
		for _, f := range consts {
			if math.Abs(f) < 9e18 {
				out = append(out, uint64(int64(f)))
			}
		}
		for _, x := range guessInts {
			if v.s.W < 64 {
				x &= 1<<v.s.W - 1
			}
			out = append(out, x)
		}
		return out
	}
	var res [2]Model
	try := func() bool {
		r, ok := w.p.eval(t, base, map[*Term]*Term{})
		if !ok || !r.isC() {
			return false
		}
		k := 1
		if r.isTrue() {
			k = 0
		}
		if res[k] != nil || (k == 0 && !needY) || (k == 1 && !needN) {
			return false
		}
		for _, c := range p.pc {
			r, ok := w.p.eval(c, base, map[*Term]*Term{})
			if !ok || !r.isTrue() {
				return false
			}
		}
		m := Model{}
		for a, b := range base {
			m[a] = b
		}
		res[k] = m
		return (res[0] != nil || !needY) && (res[1] != nil || !needN)
	}
	for _, a := range vals(vs[0]) {
		base[vs[0]] = a
		if len(vs) == 1 {
			if try() {
				return &res
			}
			continue
		}
		for _, b := range vals(vs[1]) {
			base[vs[1]] = b
			if try() {
				return &res
			}
		}
	}
	return &res
}

var probeInts = []uint64{1 << 63, 1<<63 - 1, 0, 1, ^uint64(0), 9, 10, 99, 100, 101, 1<<31 - 1, 1 << 31, ^uint64(1<<31 - 1), ^uint64(1 << 31), 1<<32 - 1, 1 << 32, 1<<53 + 1, 1 << 62, 999999999, 1000000000, 1000000001, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<63 + 1, 1<<63 - 2}

// probe looks for a witness of an undecided violation among boundary values of the numeric
// variables it depends on; the witness satisfies the whole path condition.
func (w *Worker) probe(t *Term) Model {
	p := w.path
	base := Model{}
	for _, v := range p.vars() {
		if v.s.K != SBV && v.s.K != SFP && v.s != BoolSort {
			return nil
		}
		base[v] = 0
	}
	for k, v := range p.model {
		base[k] = v
	}
	var vs []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || x.nv == 0 {
			return
		}
		seen[x] = true
		if x.op == OpVar {
			if x.s.K == SBV && x.s.W > 8 || x.s.K == SFP {
				vs = append(vs, x)
			}
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	if len(vs) == 0 || len(vs) > 3 || len(seen) > 20000 {
		return nil
	}
	budget := 1500
	var try func(i int) bool
	try = func(i int) bool {
		if i == len(vs) {
			budget--
			memo := map[*Term]*Term{}
			for _, c := range p.pc {
				if r, ok := w.p.eval(c, base, memo); !ok || !r.isTrue() {
					return false
				}
			}
			r, ok := w.p.eval(t, base, memo)
			return ok && r.isTrue()
		}
		old := base[vs[i]]
		if vs[i].s.K == SFP {
			for _, f := range guessFloats {
				if budget < 0 {
					break
				}
				base[vs[i]] = math.Float64bits(f)
				if try(i + 1) {
					return true
				}
			}
		} else {
			for _, x := range probeInts {
				if budget < 0 {
					break
				}
				if vs[i].s.W < 64 {
					x &= 1<<vs[i].s.W - 1
				}
				base[vs[i]] = x
				if try(i + 1) {
					return true
				}
			}
		}
		base[vs[i]] = old
		return false
	}
	if try(0) {
		return base
	}
	return nil
}

func (w *Worker) branch(t *Term) bool {
	if t.isC() {
		return t.val == 1
	}
	p := w.path
	if t.op == OpNot {
		return !w.branch(t.args[0])
	}
	if v, ok := p.known[t]; ok {
		return v
	}
	if p.h == nil {
		panic(abortPath{"internal", "symbolic branch outside a path"})
	}
	if p.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		p.addDec(d)
		if d.kind != 0 && d.kind != 3 {
			panic(abortPath{"internal", "replay divergence"})
		}
		if d.taken {
			w.assertPC(t)
		} else {
			w.assertPC(w.p.Not(t))
		}
		return d.taken
	}
	y, n := w.feasible(t)
	if !y && !n {
		panic(abortPath{"infeasible", "path condition became unsatisfiable"})
	}
	take := y
	if y && n {
		// explore the side the cached model follows first; queue the other
		alt := append(append([]Decision(nil), p.dec...), Decision{taken: !take})
		w.x.push(p.h, alt)
		w.x.mu.Lock()
		p.h.stats.Branches++
		w.x.mu.Unlock()
	}
	p.pos++
	p.prefix = append(p.prefix[:len(p.prefix):len(p.prefix)], Decision{taken: take})
	p.addDec(Decision{taken: take})
	if take {
		w.assertPC(t)
	} else {
		w.assertPC(w.p.Not(t))
	}
	return take
}

func (w *Worker) assume(v Value) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(abortPath{"infeasible", "assumption false"})
		}
		return
	case *Term:
		p := w.path
		if k, ok := p.known[x]; ok && x.op != OpNot {
			if !k {
				panic(abortPath{"infeasible", "assumption false"})
			}
			return
		}
		if p.replaying() {
			d := p.prefix[p.pos]
			p.pos++
			p.addDec(d)
			w.assertPC(x)
			return
		}
		y, _ := w.feasible(x)
		if !y {
			panic(abortPath{"infeasible", "assumption unsatisfiable"})
		}
		p.pos++
		p.prefix = append(p.prefix[:len(p.prefix):len(p.prefix)], Decision{taken: true, kind: 3})
		p.addDec(Decision{taken: true, kind: 3})
		w.assertPC(x)
	}
}

func (w *Worker) concretize(t *Term) uint64 {
	p := w.path
	for {
		if t.isC() {
			return t.val
		}
		p.conc++
		if p.conc > 600 {
			panic(abortPath{"unsupported", "too many values of a symbolic index"})
		}
		if p.replaying() {
			d := p.prefix[p.pos]
			p.pos++
			p.addDec(d)
			if d.kind != 1 {
				panic(abortPath{"internal", "replay divergence"})
			}
			e := w.p.Eq(t, w.p.BV(t.s.W, d.val))
			if d.taken {
				w.assertPC(e)
				return d.val
			}
			w.assertPC(w.p.Not(e))
			continue
		}
		m, ok := w.anyModel(w.p.T)
		if !ok {
			panic(abortPath{"infeasible", "no model"})
		}
		p.model = m
		r, ok := w.p.eval(t, m, map[*Term]*Term{})
		if !ok {
			panic(abortPath{"unsupported", "uninterpreted value used as an index"})
		}
		v := r.val
		e := w.p.Eq(t, w.p.BV(t.s.W, v))
		if e.isC() {
			return v
		}
		rr, _ := w.s.Check(w.p, w.p.Not(e), nil)
		if rr != Unsat {
			alt := append(append([]Decision(nil), p.dec...), Decision{taken: false, kind: 1, val: v})
			w.x.push(p.h, alt)
		}
		d := Decision{taken: true, kind: 1, val: v}
		p.pos++
		p.prefix = append(p.prefix[:len(p.prefix):len(p.prefix)], d)
		p.addDec(d)
		w.assertPC(e)
		return v
	}
}

func (w *Worker) choose(n int) int {
	p := w.path
	if n <= 0 {
		panic(abortPath{"infeasible", "empty choice"})
	}
	if n == 1 {
		return 0
	}
	if p.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		p.addDec(d)
		if d.kind != 2 {
			panic(abortPath{"internal", "replay divergence"})
		}
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]Decision(nil), p.dec...), Decision{kind: 2, val: uint64(i)})
		w.x.push(p.h, alt)
	}
	d := Decision{kind: 2, val: 0}
	p.pos++
	p.prefix = append(p.prefix[:len(p.prefix):len(p.prefix)], d)
	p.addDec(d)
	return 0
}

// assertion decides a property assertion for every input on this path.
func (w *Worker) assertion(v Value, msg string) {
	p := w.path
	st := &p.h.stats
	x := w.x
	if b, ok := v.(bool); ok {
		if p.replaying() && b {
			return
		}
		x.mu.Lock()
		st.Asserts++
		if b {
			st.Folded++
		}
		x.mu.Unlock()
		if b {
			return
		}
		if !p.replaying() {
			w.candidate(w.p.T, "assert", msg)
		}
		panic(abortPath{"stop", "assertion failed: " + msg})
	}
	t := v.(*Term)
	if p.replaying() {
		// decided by an ancestor path; a violated assertion left a forced decision behind
		d := p.prefix[p.pos]
		if d.kind == 3 && d.val == 0xA55E {
			p.pos++
			p.addDec(d)
			w.assertPC(t)
		}
		return
	}
	x.mu.Lock()
	st.Asserts++
	x.mu.Unlock()
	if w.underPC(t, 0).isTrue() {
		x.mu.Lock()
		st.Folded++
		x.mu.Unlock()
		return
	}
	nt := w.p.Not(t)
	r, m := w.s.Check(w.p, nt, p.vars())
	if r == Unknown {
		if mm := w.probe(nt); mm != nil {
			r, m = Sat, mm
		}
	}
	switch r {
	case Unsat:
		x.mu.Lock()
		st.Solved++
		x.mu.Unlock()
		return
	case Unknown:
		x.mu.Lock()
		st.Undecided++
		st.Reasons["undecided assertion: "+trunc(msg, 80)]++
		x.mu.Unlock()
		// replay whatever inputs follow this path
		if mm, ok := w.anyModel(w.p.T); ok {
			c := w.mkCase(mm)
			c.why, c.kind = msg, "undecided"
			x.mu.Lock()
			x.cands = append(x.cands, c)
			x.mu.Unlock()
		}
		return
	}
	x.mu.Lock()
	st.Solved++
	key := "assert|" + trunc(msg, 60)
	n := p.h.cand[key]
	p.h.cand[key]++
	x.mu.Unlock()
	if n < 4 {
		c := w.mkCase(m)
		c.why, c.kind = msg, "assert"
		x.mu.Lock()
		x.cands = append(x.cands, c)
		x.mu.Unlock()
	}
	if rr, _ := w.s.Check(w.p, t, nil); rr == Unsat {
		panic(abortPath{"stop", "assertion failed: " + msg})
	}
	d := Decision{kind: 3, taken: true, val: 0xA55E}
	p.pos++
	p.prefix = append(p.prefix[:len(p.prefix):len(p.prefix)], d)
	p.addDec(d)
	w.assertPC(t)
}

// underPC rewrites the boolean structure of t with the conditions already decided on this path.
func (w *Worker) underPC(t *Term, depth int) *Term {
	if t.isC() || depth > 40 {
		return t
	}
	if k, ok := w.path.known[t]; ok {
		if k {
			return w.p.T
		}
		return w.p.F
	}
	switch t.op {
	case OpNot:
		return w.p.Not(w.underPC(t.args[0], depth+1))
	case OpAnd:
		return w.p.And(w.underPC(t.args[0], depth+1), w.underPC(t.args[1], depth+1))
	case OpOr:
		return w.p.Or(w.underPC(t.args[0], depth+1), w.underPC(t.args[1], depth+1))
	case OpEq:
		if t.args[0].s == BoolSort {
			return w.p.Eq(w.underPC(t.args[0], depth+1), w.underPC(t.args[1], depth+1))
		}
	case OpIte:
		if t.s == BoolSort {
			return w.p.Ite(w.underPC(t.args[0], depth+1), w.underPC(t.args[1], depth+1), w.underPC(t.args[2], depth+1))
		}
	}
	return t
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
