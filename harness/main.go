// Native runner: replays solver models against the compiled library.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"syscall"

	"veltyverif/sym"
)

var registry = map[string]func(){}

type testCase struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Tier    int               `json:"tier"`
	Repeat  int               `json:"repeat"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func runCase(c testCase) (r result) {
	sym.Begin(c.Inputs, c.Tier)
	defer func() {
		p := recover()
		switch x := p.(type) {
		case nil:
			r.Status = "ok"
		case sym.Failure:
			r.Status, r.Msg = "assert", x.Msg
		case sym.Skip:
			r.Status = "assume"
		default:
			r.Status, r.Msg = "panic", fmt.Sprintf("%v", p)
			if os.Getenv("SYM_STACK") != "" {
				r.Msg += "\n" + string(debug.Stack())
			}
		}
		r.Obs = sym.End()
	}()
	f := registry[c.Harness]
	if f == nil {
		panic("no such harness: " + c.Harness)
	}
	f()
	return
}

func main() {
	proto := os.Stdout
	debug.SetMaxStack(256 << 20)
	if os.Getenv("SYM_AS") != "" {
		lim := uint64(6 << 30)
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var c testCase
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r := runCase(c)
		for i := 1; i < c.Repeat && r.Status == "ok"; i++ {
			r = runCase(c)
		}
		b, _ := json.Marshal(r)
		fmt.Fprintln(proto, string(b))
	}
}
