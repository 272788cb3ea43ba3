package main

// A z3 process driven incrementally: one push scope per execution path.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	scope   int32
	log     []string // declarations and assertions of the current path (for one-shot fallbacks)
	Queries int
	Fallbk  int
	Time    time.Duration
	MaxTime time.Duration
	timeout int
	nUF     map[string]bool
}

func NewSolver(timeoutMS int) *Solver {
	s := &Solver{bin: "z3-new", timeout: timeoutMS}
	if _, err := exec.LookPath(s.bin); err != nil {
		s.bin = "z3"
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("z3: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("z3: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("z3: %v", err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :print-success false)\n(set-option :timeout %d)\n(push 1)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// NewPath discards everything asserted for the previous path.
func (s *Solver) NewPath() {
	s.scope++
	s.log = s.log[:0]
	s.nUF = map[string]bool{}
	s.buf.WriteString("(pop 1)\n(push 1)\n")
}

func (s *Solver) emit(l string) {
	s.buf.WriteString(l)
	s.buf.WriteByte('\n')
	s.log = append(s.log, l)
}

func (s *Solver) define(p *Pool, t *Term) {
	if t.op == OpConst || t.shown == s.scope {
		return
	}
	if t.op == OpVar {
		t.shown = s.scope
		s.emit(fmt.Sprintf("(declare-const |%s| %s)", t.name, t.s))
		return
	}
	// iterative post-order to survive deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op == OpConst || a.shown == s.scope {
				continue
			}
			if a.op == OpVar {
				s.define(p, a)
				continue
			}
			st = append(st, fr{a, 0})
			continue
		}
		if f.t.shown != s.scope {
			f.t.shown = s.scope
			if f.t.op == OpUF && !s.nUF[f.t.name] {
				s.nUF[f.t.name] = true
				s.emit(p.ufs[f.t.name])
			}
			var b strings.Builder
			fmt.Fprintf(&b, "(define-fun t%d () %s ", f.t.id, f.t.s)
			f.t.body(&b)
			b.WriteByte(')')
			s.emit(b.String())
		}
		st = st[:len(st)-1]
	}
}

func (s *Solver) Assert(p *Pool, t *Term) {
	s.define(p, t)
	s.emit("(assert " + t.ref() + ")")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides PC ∧ t. With want != nil the values of those variables are read back on sat.
func (s *Solver) Check(p *Pool, t *Term, want []*Term) (Result, Model) {
	s.define(p, t)
	for _, v := range want {
		s.define(p, v)
	}
	s.buf.WriteString("(push 1)\n(assert " + t.ref() + ")\n(check-sat)\n")
	t0 := time.Now()
	s.Queries++
	txt := s.buf.String()
	s.buf.Reset()
	if _, err := io.WriteString(s.in, txt); err != nil {
		return s.dead(p, t, want)
	}
	line, err := s.readLine()
	for err == nil && strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "z3:", line)
		if os.Getenv("SYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, strings.Join(s.log, "\n"))
		}
		line, err = s.readLine()
	}
	if err != nil {
		return s.dead(p, t, want)
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	if slow := os.Getenv("SYM_SLOW"); slow != "" && d > time.Second {
		os.WriteFile(fmt.Sprintf("%s/%d.smt2", slow, d.Milliseconds()), []byte(strings.Join(s.log, "\n")+"\n(assert "+t.ref()+")\n(check-sat)\n"), 0o644)
	}
	res := Unknown
	var m Model
	switch line {
	case "sat":
		res = Sat
		if want != nil {
			m = s.values(want)
		}
	case "unsat":
		res = Unsat
	}
	s.buf.WriteString("(pop 1)\n")
	if res == Unknown {
		return s.oneShot(p, t, want)
	}
	return res, m
}

func (s *Solver) values(want []*Term) Model {
	m := Model{}
	for _, v := range want {
		io.WriteString(s.in, "(get-value ("+v.ref()+"))\n")
		txt := ""
		depth := 0
		for {
			l, err := s.readLine()
			if err != nil {
				return m
			}
			txt += " " + l
			q := false
			for _, c := range l {
				if c == '|' {
					q = !q
				}
				if q {
					continue
				}
				if c == '(' {
					depth++
				}
				if c == ')' {
					depth--
				}
			}
			if depth == 0 {
				break
			}
		}
		txt = strings.TrimSpace(txt)
		txt = strings.TrimSuffix(strings.TrimPrefix(txt, "(("), "))")
		txt = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(txt), v.ref()))
		if strings.HasPrefix(txt, "(") {
			txt += strings.Repeat(")", strings.Count(txt, "(")-strings.Count(txt, ")"))
		}
		if b, ok := parseLit(v.s, txt); ok {
			m[v] = b
		}
	}
	return m
}

func (s *Solver) dead(p *Pool, t *Term, want []*Term) (Result, Model) {
	// the process died (memory limit): restart it and replay the path
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
	s.buf.WriteString("(pop 1)\n(push 1)\n")
	for _, l := range s.log {
		s.buf.WriteString(l + "\n")
	}
	return s.oneShot(p, t, want)
}

// oneShot retries an undecided query non-incrementally with z3's full
// preprocessing and then with cvc5.
func (s *Solver) oneShot(p *Pool, t *Term, want []*Term) (Result, Model) {
	s.Fallbk++
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n(set-option :produce-models true)\n")
	for _, l := range s.log {
		b.WriteString(l + "\n")
	}
	b.WriteString("(assert " + t.ref() + ")\n(check-sat)\n")
	for _, v := range want {
		b.WriteString("(get-value (" + v.ref() + "))\n")
	}
	f, err := os.CreateTemp("", "q*.smt2")
	if err != nil {
		return Unknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString(b.String())
	f.Close()
	sec := s.timeout*4/1000 + 1
	type ans struct{ out []byte }
	ch := make(chan []byte, 2)
	cmds := []*exec.Cmd{
		exec.Command(s.bin, fmt.Sprintf("-T:%d", sec), "-memory:3000", f.Name()),
		exec.Command("cvc5", fmt.Sprintf("--tlimit=%d", sec*1000), "--fp-exp", f.Name()),
	}
	for _, c := range cmds {
		c := c
		go func() { o, _ := c.Output(); ch <- o }()
	}
	t0 := time.Now()
	res := Unknown
	var m Model
	for range cmds {
		o := string(<-ch)
		first, rest, _ := strings.Cut(o, "\n")
		first = strings.TrimSpace(first)
		if first == "unsat" {
			res = Unsat
		} else if first == "sat" {
			res = Sat
			m = Model{}
			for _, v := range want {
				i := strings.Index(rest, v.ref()+" ")
				if i < 0 {
					continue
				}
				x := rest[i+len(v.ref()):]
				d := 0
				end := len(x)
				for j, c := range x {
					if c == '(' {
						d++
					}
					if c == ')' {
						if d == 0 {
							end = j
							break
						}
						d--
					}
				}
				if bb, ok := parseLit(v.s, x[:end]); ok {
					m[v] = bb
				}
			}
		}
		if res != Unknown {
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	return res, m
}
