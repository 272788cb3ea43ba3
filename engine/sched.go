package main

// Threads, locks, pools and happens-before race detection.
// Threads run one at a time; the scheduler decides at every synchronisation
// operation which thread continues, as an explored decision with a bound on
// preemptions. Every memory access is checked against vector clocks.

import (
	"fmt"
	"go/token"
)

type vclock []int

func (v vclock) clone() vclock { return append(vclock(nil), v...) }
func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}
func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type lockSt struct {
	held     bool
	owner    int
	readers  int
	wvc, rvc vclock
}

type hbCell struct {
	wt, wc int
	wloc   string
	reads  map[int]int
	rloc   map[int]string
}

type hbInfo struct{ cells map[int]*hbCell }

type hbState struct {
	vc   []vclock
	objs map[*Object]*hbInfo
	sync map[Ptr]vclock
	n    int
}

type thread struct {
	id     int
	resume chan struct{}
	done   bool
	wait   func() bool
	cur    *frame
	depth  int
	err    interface{}
}

type scheduler struct {
	ths     []*thread
	back    chan struct{}
	cur     *thread
	preempt int
	killed  bool
}

type killThread struct{}

func (s *scheduler) kill() {
	s.killed = true
	for _, t := range s.ths {
		if !t.done {
			t.resume <- struct{}{}
			<-s.back
		}
	}
}

// yield gives the scheduler a chance to switch threads; wait, if non-nil, must hold before continuing.
func (w *Worker) yield(wait func() bool) {
	s := w.sched
	if s == nil || s.cur == nil {
		if wait != nil && !wait() {
			panic(abortPath{"deadlock", "lock is never released at " + w.where()})
		}
		return
	}
	t := s.cur
	t.cur, t.depth, t.wait = w.cur, w.depth, wait
	s.back <- struct{}{}
	<-t.resume
	if s.killed {
		panic(killThread{})
	}
	w.cur, w.depth, w.tid = t.cur, t.depth, t.id
	t.wait = nil
}

func (w *Worker) symGo(fns []Ptr) {
	if w.sched != nil {
		unsupported("nested sym.Go")
	}
	s := &scheduler{back: make(chan struct{}), preempt: w.option("preemptions", 2)}
	w.sched = s
	cur, depth := w.cur, w.depth
	w.hb = &hbState{objs: map[*Object]*hbInfo{}, sync: map[Ptr]vclock{}, n: len(fns) + 1}
	w.hb.vc = make([]vclock, len(fns)+1)
	for i := range w.hb.vc {
		w.hb.vc[i] = make(vclock, len(fns)+1)
		w.hb.vc[i][i] = 1
	}
	w.hbOn = w.option("races", 1) == 1
	for i, f := range fns {
		t := &thread{id: i + 1, resume: make(chan struct{}), depth: depth, cur: cur}
		s.ths = append(s.ths, t)
		f := f
		go func() {
			<-t.resume
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killThread); !ok {
						t.err = r
					}
				}
				t.done = true
				s.back <- struct{}{}
			}()
			if s.killed {
				return
			}
			w.cur, w.depth, w.tid = t.cur, t.depth, t.id
			w.callClosure(t.cur, f.o.fn, nil)
		}()
	}
	var last *thread
	for {
		var en []*thread
		alive := false
		for _, t := range s.ths {
			if t.done {
				continue
			}
			alive = true
			if t.wait == nil || t.wait() {
				en = append(en, t)
			}
		}
		if !alive {
			break
		}
		if len(en) == 0 {
			panic(abortPath{"deadlock", "all threads are blocked"})
		}
		pick := en[0]
		lastEn := -1
		for i, t := range en {
			if t == last {
				lastEn = i
			}
		}
		switch {
		case lastEn >= 0 && s.preempt <= 0:
			pick = en[lastEn]
		case lastEn >= 0:
			en[0], en[lastEn] = en[lastEn], en[0]
			pick = en[w.choose(len(en))]
			if pick != last {
				s.preempt--
			}
		default:
			pick = en[w.choose(len(en))]
		}
		s.cur = pick
		last = pick
		pick.resume <- struct{}{}
		<-s.back
		s.cur = nil
		if pick.done && pick.err != nil {
			w.cur, w.depth, w.tid = cur, depth, 0
			panic(pick.err)
		}
	}
	w.cur, w.depth, w.tid = cur, depth, 0
	w.hbOn = false
	w.sched = nil
}

func (w *Worker) goStmt(fr *frame, k *instr) { unsupported("go statement in %s", fr.fn.name) }

// ---- locks ----

func (w *Worker) lockOf(p Ptr) *lockSt {
	if p.o == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	if w.path.locks == nil {
		w.path.locks = map[Ptr]*lockSt{}
	}
	l := w.path.locks[p]
	if l == nil {
		l = &lockSt{}
		w.path.locks[p] = l
	}
	return l
}

func (w *Worker) lockFree(p Ptr) bool { l := w.lockOf(p); return !l.held && l.readers == 0 }

func (w *Worker) lock(p Ptr, excl bool) {
	l := w.lockOf(p)
	w.yield(func() bool { return !l.held && (!excl || l.readers == 0) })
	if excl {
		l.held, l.owner = true, w.tid
	} else {
		l.readers++
	}
	if w.hbOn {
		w.hb.vc[w.tid] = w.hb.vc[w.tid].join(l.wvc)
		if excl {
			w.hb.vc[w.tid] = w.hb.vc[w.tid].join(l.rvc)
		}
	}
}

func (w *Worker) unlock(p Ptr, excl bool) {
	l := w.lockOf(p)
	if excl && !l.held || !excl && l.readers == 0 {
		panic(abortPath{"deadlock", "fatal error: unlock of unlocked mutex at " + w.where()})
	}
	if w.hbOn {
		if excl {
			l.wvc = w.hb.vc[w.tid].clone()
			l.rvc = l.rvc.join(l.wvc)
		} else {
			l.rvc = l.rvc.clone().join(w.hb.vc[w.tid])
		}
		w.hb.vc[w.tid][w.tid]++
	}
	if excl {
		l.held = false
	} else {
		l.readers--
	}
	w.yield(nil)
}

func (w *Worker) atomic(p Ptr, f func() Value) Value {
	w.yield(nil)
	on := w.hbOn
	w.hbOn = false
	v := f()
	w.hbOn = on
	if on {
		w.hb.vc[w.tid] = w.hb.vc[w.tid].join(w.hb.sync[p])
		w.hb.sync[p] = w.hb.vc[w.tid].clone()
		w.hb.vc[w.tid][w.tid]++
	}
	return v
}

// ---- sync.Pool ----

type poolItem struct {
	v  Iface
	vc vclock
}

func (w *Worker) poolGet(fr *frame, p Ptr) Value {
	w.yield(nil)
	if p.o == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	items := w.path.pools[p]
	if n := len(items); n > 0 {
		i := n - 1
		fresh := false
		if w.option("poolfork", 0) == 1 {
			k := w.choose(n + 1)
			if k == n {
				fresh = true
			} else {
				i = n - 1 - k
			}
		}
		if !fresh {
			it := items[i]
			w.path.pools[p] = append(append([]poolItem(nil), items[:i]...), items[i+1:]...)
			if w.hbOn {
				w.hb.vc[w.tid] = w.hb.vc[w.tid].join(it.vc)
			}
			return it.v
		}
	}
	pt := w.rt(w.P.pkgs["sync"].Type("Pool").Type())
	nf := w.load(Ptr{p.o, p.off + pt.offs[len(pt.offs)-1]}, w.rtUnsafePtr).(Ptr)
	if nf.o == nil {
		return Iface{}
	}
	return w.callClosure(fr, nf.o.fn, nil)
}

func (w *Worker) poolPut(p Ptr, v Iface) {
	w.yield(nil)
	if w.path.pools == nil {
		w.path.pools = map[Ptr][]poolItem{}
	}
	it := poolItem{v: v}
	if w.hbOn {
		it.vc = w.hb.vc[w.tid].clone()
		w.hb.vc[w.tid][w.tid]++
	}
	w.path.pools[p] = append(append([]poolItem(nil), w.path.pools[p]...), it)
}

func (w *Worker) intAdd(r *RT, a, b Value) Value { return w.intOp(token.ADD, r, r, a, b) }

// ---- races ----

func (w *Worker) hbRec(o *Object, key int, write bool) {
	if o == nil || o.ro {
		return
	}
	h := w.hb.objs[o]
	if h == nil {
		h = &hbInfo{cells: map[int]*hbCell{}}
		w.hb.objs[o] = h
	}
	c := h.cells[key]
	if c == nil {
		c = &hbCell{}
		h.cells[key] = c
	}
	me := w.tid
	vc := w.hb.vc[me]
	race := func(kind string, t int, loc string) {
		panic(abortPath{"race", fmt.Sprintf("data race: %s by thread %d at %s, unordered with thread %d at %s (%s)", kind, me, w.where(), t, loc, o.what)})
	}
	if c.wc > 0 && c.wt != me && vc.at(c.wt) < c.wc {
		k := "read after write"
		if write {
			k = "write after write"
		}
		race(k, c.wt, c.wloc)
	}
	if write {
		for t, n := range c.reads {
			if t != me && vc.at(t) < n {
				race("write after read", t, c.rloc[t])
			}
		}
		c.wt, c.wc, c.wloc = me, vc.at(me), w.where()
		c.reads = nil
	} else {
		if c.reads == nil {
			c.reads, c.rloc = map[int]int{}, map[int]string{}
		}
		if c.reads[me] != vc.at(me) {
			c.reads[me] = vc.at(me)
			c.rloc[me] = w.where()
		}
	}
}

func (w *Worker) hbAccess(p Ptr, size int, write bool) {
	o := p.o
	if o == nil || o.lay == nil || w.tid == 0 {
		return
	}
	for off := p.off; off < p.off+size; {
		_, lf, st := o.leafContaining(off)
		if lf == nil {
			off++
			continue
		}
		w.hbRec(o, st, write)
		off = st + lf.size
	}
}

func (w *Worker) hbMap(o *Object, write bool) {
	if w.tid == 0 {
		return
	}
	w.hbRec(o, -1, write)
}
