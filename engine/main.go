package main

// Command symgo: decides one property of the tree under test by symbolic
// execution of its SSA, replays every counterexample natively, and writes the
// evidence file.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	fCheck   = flag.String("check", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRoot    = flag.String("root", "/verif", "verification directory")
	fBudget  = flag.Int("budget", 0, "exploration budget in seconds")
	fHarness = flag.String("harness", "", "only harnesses matching this expression")
	fWorkers = flag.Int("workers", 8, "worker count")
	fTrace   = flag.Bool("trace", false, "trace paths")
	fReplay  = flag.String("replay", "", "replay a counterexample file natively")
	fSolver  = flag.Int("solverms", 20000, "solver timeout per query")
	fMax     = flag.Int("maxpaths", 0, "path cap per harness")
	fNoEv    = flag.Bool("noevidence", false, "do not write evidence")
)

const goRoot = "/opt/veriftools/go1.23.12"

func goEnv(cgo string) []string {
	cache := os.Getenv("SYM_GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "PATH", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOFLAGS", "GOWORK", "GOPATH", "GOMODCACHE", "GOCACHE", "GOENV", "CGO_ENABLED", "GODEBUG", "GOOS", "GOARCH", "GOEXPERIMENT":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOROOT="+goRoot, "PATH="+goRoot+"/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOPATH=/root/go",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "GOENV=off", "CGO_ENABLED="+cgo)
}

func load(dir string) (*Program, *ssa.Package) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv("0")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		fatal("load: %v", err)
	}
	bad := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad++
		}
	})
	if bad > 0 {
		fatal("the tree under test does not build with the harness (%d errors)", bad)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64")}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	if spkgs[0] == nil {
		fatal("no harness package")
	}
	P.pkgs[harnessPkg] = spkgs[0]
	return P, spkgs[0]
}

// ---- native runner ----

type Runner struct {
	bin  string
	env  []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errB *tailBuf
	lim  time.Duration
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 16384 {
		t.b = append(t.b[:4096:4096], t.b[len(t.b)-8192:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tailBuf) take() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	t.b = nil
	return s
}

func (r *Runner) start() error {
	r.cmd = exec.Command(r.bin)
	r.cmd.Env = append(os.Environ(), r.env...)
	r.in, _ = r.cmd.StdinPipe()
	o, _ := r.cmd.StdoutPipe()
	r.out = bufio.NewReaderSize(o, 1<<20)
	r.errB = &tailBuf{}
	r.cmd.Stderr = r.errB
	return r.cmd.Start()
}

func (r *Runner) stop() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

type NatResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func (r *Runner) run(c Case, repeat int) NatResult {
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return NatResult{Status: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"harness": c.Harness, "inputs": c.Inputs, "tier": c.Tier, "repeat": repeat})
	r.in.Write(append(b, '\n'))
	type ln struct {
		s   string
		err error
	}
	ch := make(chan ln, 1)
	out := r.out
	go func() {
		s, err := out.ReadString('\n')
		ch <- ln{s, err}
	}()
	lim := r.lim
	if lim == 0 {
		lim = 10 * time.Second
	}
	select {
	case l := <-ch:
		if l.err != nil {
			r.cmd.Wait()
			msg := r.errB.take()
			r.cmd = nil
			return NatResult{Status: "crash", Msg: msg}
		}
		var res NatResult
		if err := json.Unmarshal([]byte(l.s), &res); err != nil {
			return NatResult{Status: "error", Msg: "bad runner output: " + l.s}
		}
		return res
	case <-time.After(lim):
		r.stop()
		return NatResult{Status: "timeout", Msg: fmt.Sprintf("no termination within %v", lim)}
	}
}

var goodHarness = regexp.MustCompile(`^(KF[a-zA-Z]*)?C\d\d_`)

type natBuild struct {
	dir   string
	tmp   string
	names []string
	once  map[string]*sync.Once
	bins  map[string]string
	errs  map[string]error
	mu    sync.Mutex
}

func newNat(dir string, names []string) *natBuild {
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatal("%v", err)
	}
	var b strings.Builder
	b.WriteString("package main\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\tregistry[%q] = %s\n", n, n)
	}
	b.WriteString("}\n")
	reg := filepath.Join(tmp, "zz_registry.go")
	os.WriteFile(reg, []byte(b.String()), 0o644)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(dir, "zz_registry.go"): reg}})
	os.WriteFile(filepath.Join(tmp, "overlay.json"), ov, 0o644)
	return &natBuild{dir: dir, tmp: tmp, names: names, once: map[string]*sync.Once{}, bins: map[string]string{}, errs: map[string]error{}}
}

// binary builds (once) the native runner in a variant: "" or "race".
func (n *natBuild) binary(variant string) (string, error) {
	n.mu.Lock()
	o := n.once[variant]
	if o == nil {
		o = &sync.Once{}
		n.once[variant] = o
	}
	n.mu.Unlock()
	o.Do(func() {
		bin := filepath.Join(n.tmp, "runner"+variant)
		args := []string{"build", "-overlay", filepath.Join(n.tmp, "overlay.json"), "-o", bin}
		cgo := "0"
		if variant == "race" {
			args = append(args, "-race")
			cgo = "1"
		}
		args = append(args, ".")
		cmd := exec.Command(goRoot+"/bin/go", args...)
		cmd.Dir = n.dir
		cmd.Env = goEnv(cgo)
		out, err := cmd.CombinedOutput()
		n.mu.Lock()
		defer n.mu.Unlock()
		if err != nil {
			n.errs[variant] = fmt.Errorf("%v\n%s", err, out)
		}
		n.bins[variant] = bin
	})
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.bins[variant], n.errs[variant]
}

// ---- known findings ----

type known struct{ property, harness, what string }

func readKnown(root string) []known {
	b, _ := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	var out []known
	re := regexp.MustCompile(`^known:\s+property=(\S+)\s+harness=(\S+)\s+(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

func main() {
	flag.Parse()
	if *fCheck == "" && *fReplay == "" {
		fatal("-check is required")
	}
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	debug.SetGCPercent(400)
	if os.Getenv("GOMEMLIMIT") == "" {
		debug.SetMemoryLimit(14 << 30)
	}
	t0 := time.Now()
	dir := filepath.Join(*fRoot, "harness")
	if *fReplay != "" {
		replayFile(dir, *fReplay)
		return
	}
	P, mp := load(dir)
	tLoad := time.Since(t0)
	var all, hs []*Harness
	var names []string
	var filt *regexp.Regexp
	if *fHarness != "" {
		filt = regexp.MustCompile(*fHarness)
	}
	for n, m := range mp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !goodHarness.MatchString(n) || f.Signature.Params().Len() != 0 {
			continue
		}
		names = append(names, n)
		i := strings.Index(n, "_")
		id := n[i-3 : i]
		if id == *fCheck {
			h := &Harness{Name: n, fn: f}
			all = append(all, h)
			if filt == nil || filt.MatchString(n) {
				hs = append(hs, h)
			}
		}
	}
	sort.Strings(names)
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	if len(hs) == 0 {
		fatal("no harness for %s", *fCheck)
	}
	nat := newNat(dir, names)
	defer os.RemoveAll(nat.tmp)
	natErr := make(chan error, 1)
	go func() {
		_, err := nat.binary("")
		natErr <- err
	}()
	tier := 0
	budget := 100
	if *fTier == "thorough" {
		tier, budget = 1, 600
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	nw := *fWorkers
	if c := runtime.NumCPU(); nw > c {
		nw = c
	}
	x := &Explorer{P: P, hs: hs, deadline: time.Now().Add(time.Duration(budget) * time.Second), tier: tier, seed: seed, maxSteps: 3000000,
		solverMS: *fSolver, vcap: 6, used: map[string]bool{}, usedIntr: map[string]bool{}, late: map[string]bool{}, maxPaths: *fMax, trace: *fTrace}
	if tier == 1 {
		x.vcap = 20
	}
	x.Run(nw)
	if err := <-natErr; err != nil {
		os.RemoveAll(nat.tmp)
		fatal("native build: %v", err)
	}
	rc := report(x, nat, seed, time.Since(t0), tLoad, t0)
	os.RemoveAll(nat.tmp)
	os.Exit(rc)
}

type verdict struct {
	c   Case
	res NatResult
	bad bool
}

func confirm(c Case, nat *natBuild, rs map[string]*Runner) verdict {
	v := verdict{c: c}
	get := func(variant string) *Runner {
		if rs[variant] == nil {
			bin, err := nat.binary(variant)
			if err != nil {
				fmt.Fprintf(os.Stderr, "symgo: native build %q: %v\n", variant, err)
				return nil
			}
			r := &Runner{bin: bin, env: []string{"SYM_AS=1"}}
			if variant == "race" {
				r.env = []string{"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}
				r.lim = 60 * time.Second
			}
			rs[variant] = r
		}
		return rs[variant]
	}
	rep := 1
	if c.kind == "race" || c.kind == "deadlock" {
		rep = 20
	}
	if r := get(""); r != nil {
		v.res = r.run(c, rep)
	}
	switch v.res.Status {
	case "assert", "panic", "crash", "timeout":
		v.bad = true
		return v
	}
	if c.kind == "memfault" || c.kind == "race" {
		if r := get("race"); r != nil {
			if c.kind == "race" {
				rep = 60
			}
			res := r.run(c, rep)
			switch res.Status {
			case "assert", "panic", "crash", "timeout":
				v.res, v.bad = res, true
			}
		}
	}
	return v
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return trunc(s, 300)
}

func report(x *Explorer, nat *natBuild, seed int64, wall, tLoad time.Duration, t0 time.Time) int {
	id := *fCheck
	kf := map[string]known{}
	for _, k := range readKnown(*fRoot) {
		if k.property == id {
			kf[k.harness] = k
		}
	}
	// replay candidates and sampled completed paths
	jobs := append(append([]Case(nil), x.cands...), x.valid...)
	verdicts := make([]verdict, len(jobs))
	var wg sync.WaitGroup
	idx := make(chan int, len(jobs))
	for i := range jobs {
		idx <- i
	}
	close(idx)
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs := map[string]*Runner{}
			for i := range idx {
				verdicts[i] = confirm(jobs[i], nat, rs)
			}
			for _, r := range rs {
				if r != nil {
					r.stop()
				}
			}
		}()
	}
	wg.Wait()
	validated, mismatch, unconfirmed := 0, 0, 0
	var viol []verdict
	var notes []string
	for _, v := range verdicts {
		c := v.c
		if v.bad {
			viol = append(viol, v)
			continue
		}
		if c.why != "" {
			if c.kind != "unsupported" && c.kind != "undecided" {
				unconfirmed++
				notes = append(notes, fmt.Sprintf("unconfirmed %s in %s: %s (inputs %s; native %s)", c.kind, c.Harness, firstLine(c.why), c.model, v.res.Status))
			}
			continue
		}
		// a completed path must behave the same natively
		same := v.res.Status == "ok" && len(v.res.Obs) == len(c.expect)
		for i := 0; same && i < len(c.expect); i++ {
			if !strings.HasSuffix(c.expect[i], "=?") && c.expect[i] != v.res.Obs[i] {
				same = false
			}
		}
		if same {
			validated++
		} else {
			mismatch++
			notes = append(notes, fmt.Sprintf("model mismatch in %s: inputs %s\n   expected %v\n   native %s %v %s", c.Harness, c.model, c.expect, v.res.Status, v.res.Obs, firstLine(v.res.Msg)))
		}
	}
	for i, n := range notes {
		if i >= 20 {
			fmt.Fprintf(os.Stderr, "symgo: ... and %d more notes\n", len(notes)-i)
			break
		}
		fmt.Fprintln(os.Stderr, "symgo: "+n)
	}
	// report
	rc := 0
	seenKF := map[string]bool{}
	nviol := 0
	perH := map[string]int{}
	var vioSamples []interface{}
	for _, v := range viol {
		if k, ok := kf[v.c.Harness]; ok {
			if !seenKF[v.c.Harness] {
				seenKF[v.c.Harness] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
			}
			continue
		}
		nviol++
		perH[v.c.Harness]++
		if perH[v.c.Harness] > 3 {
			continue
		}
		rc = 1
		os.MkdirAll(filepath.Join(*fRoot, "evidence", "replay"), 0o755)
		path := filepath.Join(*fRoot, "evidence", "replay", fmt.Sprintf("%s-%s-%d.json", id, v.c.Harness, perH[v.c.Harness]))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "harness": v.c.Harness, "inputs": v.c.Inputs, "tier": v.c.Tier, "kind": v.c.kind,
			"readable": v.c.model, "why": v.c.why, "native": v.res, "rerun": "/verif/check.sh replay " + path}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		why := v.c.why
		if why == "" {
			why = "native run of a sampled path"
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  harness %s: %s\n  inputs: %s\n  native: %s %s\n", v.c.Harness, firstLine(why), v.c.model, v.res.Status, firstLine(v.res.Msg))
		vioSamples = append(vioSamples, map[string]interface{}{"harness": v.c.Harness, "inputs": v.c.model, "why": firstLine(why), "native": v.res.Status + " " + firstLine(v.res.Msg)})
	}
	// evidence
	var paths, ok, inf, uns, lim, pruned, asserts, folded, solved, undec, branches int
	var steps int64
	hsum := map[string]interface{}{}
	var samples []interface{}
	reach := 0
	var vac []string
	for _, h := range x.hs {
		s := h.stats
		paths += s.Paths
		ok += s.OK
		inf += s.Infeasible
		uns += s.Unsupported
		lim += s.Limit
		pruned += s.Pruned
		asserts += s.Asserts
		folded += s.Folded
		solved += s.Solved
		undec += s.Undecided
		branches += s.Branches
		steps += s.Steps
		for _, n := range s.Reach {
			reach += n
		}
		if len(s.Reach) == 0 && kf[h.Name].harness == "" {
			vac = append(vac, h.Name)
		}
		m := map[string]interface{}{"paths": s.Paths, "completed": s.OK, "infeasible": s.Infeasible, "unsupported": s.Unsupported, "step_limit": s.Limit, "not_explored_in_budget": s.Pruned,
			"assertions": s.Asserts, "folded": s.Folded, "solver_decided": s.Solved, "undecided": s.Undecided, "reach": s.Reach}
		if len(s.Reasons) > 0 {
			m["reasons"] = s.Reasons
		}
		hsum[h.Name] = m
		for _, q := range s.Samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]string{"harness": h.Name, "inputs": q})
			}
		}
		fmt.Printf("%-34s paths %d ok %d infeasible %d unsupported %d limit %d unexplored %d | asserts %d folded %d solved %d undecided %d\n", h.Name, s.Paths, s.OK, s.Infeasible, s.Unsupported, s.Limit, s.Pruned, s.Asserts, s.Folded, s.Solved, s.Undecided)
		for r, n := range s.Reasons {
			fmt.Printf("    %d× %s\n", n, r)
		}
	}
	if len(vac) > 0 {
		fmt.Printf("no reach label met in: %s\n", strings.Join(vac, ", "))
	}
	var repo, model []string
	for _, f := range sortedKeys(x.used) {
		if strings.Contains(f, "viant/") {
			repo = append(repo, strings.ReplaceAll(f, "github.com/viant/", ""))
		}
	}
	model = sortedKeys(x.usedIntr)
	if len(samples) == 0 {
		samples = append(samples, map[string]string{"note": "no completed path"})
	}
	cov := map[string]interface{}{
		"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive":          pruned == 0 && uns == 0 && lim == 0 && undec == 0,
		"what":                "states = symbolic execution paths of the harnesses (each stands for every input satisfying its path condition); transitions = SSA instructions executed symbolically",
		"paths_completed":     ok,
		"paths_infeasible":    inf,
		"paths_unsupported":   uns,
		"paths_step_limit":    lim,
		"paths_not_explored":  pruned,
		"assertions":          asserts,
		"assertions_folded":   folded,
		"assertions_solved":   solved,
		"assertions_unknown":  undec,
		"symbolic_branches":   branches,
		"queries":             x.queries,
		"query_fallbacks":     x.fallbk,
		"solver_seconds":      round3(x.solverT.Seconds()),
		"solver_max_query_s":  round3(x.solverMax.Seconds()),
		"reach_hits":          reach,
		"vacuous_harnesses":   vac,
		"model_mismatches":    mismatch,
		"unconfirmed":         unconfirmed,
		"harnesses":           hsum,
		"functions_encoded":   repo,
		"n_functions_encoded": len(repo),
		"stubbed_functions":   model,
		"load_seconds":        round3(tLoad.Seconds()),
		"bounds":              "string lengths, loop counts, nesting and thread counts are the constants passed to sym.* in the harness; 3,000,000 SSA steps per path; solver limit per query " + fmt.Sprint(x.solverMS) + " ms",
		"replayed_candidates": len(x.cands),
	}
	if len(vioSamples) > 0 {
		cov["violations"] = vioSamples
	}
	ev := map[string]interface{}{
		"property": id, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round3(time.Since(t0).Seconds()), "violations": nviol,
		"assumptions": []string{
			"SSA of go/ssa (x/tools) for go1.23 amd64 represents the compiled program",
			"library functions listed under stubbed_functions follow their documented contract as modelled in /verif/engine",
			"decimal formatting of a symbolic integer is an uninterpreted 3-byte function of its value, except in harnesses with realints=1",
			"inputs outside the harness bounds are not covered",
		},
	}
	if !*fNoEv {
		os.MkdirAll(filepath.Join(*fRoot, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*fRoot, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d queries (%.1fs), %d functions encoded, %d traces validated (%d mismatches, %d unconfirmed), %.1fs\n", id, *fTier, paths, asserts, x.queries, x.solverT.Seconds(), len(repo), validated, mismatch, unconfirmed, time.Since(t0).Seconds())
	if rc == 0 && ok == 0 {
		fmt.Println("no path completed: no answer")
		return 2
	}
	return rc
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

func replayFile(dir, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var c Case
	var k struct {
		Kind string `json:"kind"`
	}
	json.Unmarshal(b, &c)
	json.Unmarshal(b, &k)
	c.kind = k.Kind
	cmd := exec.Command("grep", "-hoE", `^func (KF[a-zA-Z]*)?C[0-9][0-9]_[A-Za-z0-9_]*\(\)`, "-r", dir, "--include=*.go")
	out, _ := cmd.Output()
	var names []string
	for _, l := range strings.Fields(string(out)) {
		if strings.HasSuffix(l, "()") {
			names = append(names, strings.TrimSuffix(l, "()"))
		}
	}
	nat := newNat(dir, names)
	defer os.RemoveAll(nat.tmp)
	v := confirm(c, nat, map[string]*Runner{})
	fmt.Printf("%s: %s %s\n", c.Harness, v.res.Status, v.res.Msg)
	for _, o := range v.res.Obs {
		fmt.Println("  ", o)
	}
	if v.bad {
		os.RemoveAll(nat.tmp)
		os.Exit(1)
	}
}
