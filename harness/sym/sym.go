// Package sym is the interface between a harness and its two interpreters.
// Under the symbolic executor every function here is intercepted: inputs become
// solver variables and Assert becomes a query. Compiled natively, inputs come
// from a solver model and Assert checks the concrete run.
package sym

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"strconv"
	"sync"
)

type Failure struct{ Msg string }
type Skip struct{}

type state struct {
	inputs map[string]string
	names  map[string]int
	obs    []string
	tier   int
	out    *os.File
	fail   string
}

var cur = &state{}
var mu sync.Mutex

// Begin starts a native case.
func Begin(inputs map[string]string, tier int) {
	cur = &state{inputs: inputs, names: map[string]int{}, tier: tier}
	f, err := os.CreateTemp("", "symout")
	if err == nil {
		os.Remove(f.Name())
		cur.out = f
		os.Stdout = f
	}
}

// End returns what the case observed.
func End() []string {
	if cur.out != nil {
		cur.out.Close()
	}
	return cur.obs
}

func get(name string) string {
	cur.names[name]++
	if k := cur.names[name]; k > 1 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return cur.inputs[name]
}

func bits(name string) uint64 {
	v, _ := strconv.ParseUint(get(name), 16, 64)
	return v
}

func Int(name string) int       { return int(bits(name)) }
func Int8(name string) int8     { return int8(bits(name)) }
func Int16(name string) int16   { return int16(bits(name)) }
func Int32(name string) int32   { return int32(bits(name)) }
func Int64(name string) int64   { return int64(bits(name)) }
func Uint(name string) uint     { return uint(bits(name)) }
func Uint8(name string) uint8   { return uint8(bits(name)) }
func Uint16(name string) uint16 { return uint16(bits(name)) }
func Uint32(name string) uint32 { return uint32(bits(name)) }
func Uint64(name string) uint64 { return bits(name) }
func Byte(name string) byte     { return byte(bits(name)) }
func Bool(name string) bool     { return bits(name) != 0 }

func Float64(name string) float64 { return math.Float64frombits(bits(name)) }
func Float32(name string) float32 { return float32(math.Float64frombits(bits(name))) }

// IntIn is an arbitrary int in lo..hi.
func IntIn(name string, lo, hi int) int {
	v := int(bits(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Str is an arbitrary string of 0..max bytes.
func Str(name string, max int) string {
	b, _ := hex.DecodeString(get(name))
	return string(b)
}

// StrN is an arbitrary string of exactly n bytes.
func StrN(name string, n int) string {
	b, _ := hex.DecodeString(get(name))
	for len(b) < n {
		b = append(b, 0)
	}
	return string(b)
}

// StrOf is an arbitrary string of min..max bytes drawn from alphabet.
func StrOf(name string, min, max int, alphabet string) string {
	b, _ := hex.DecodeString(get(name))
	for len(b) < min {
		b = append(b, alphabet[0])
	}
	return string(b)
}

// Choice is an arbitrary value in 0..n-1; every alternative is explored as its own path.
func Choice(name string, n int) int {
	v, _ := strconv.Atoi(get(name))
	if v >= n {
		panic(Skip{})
	}
	return v
}

// Assume restricts the inputs to those satisfying cond.
func Assume(cond bool) {
	if !cond {
		panic(Skip{})
	}
}

// Assert states the property.
func Assert(cond bool, msg string) {
	if !cond {
		panic(Failure{msg})
	}
}

func Reach(label string) {}

// Observe records a value that must agree between the symbolic and the native run.
func Observe(label, value string) {
	mu.Lock()
	cur.obs = append(cur.obs, label+"="+hex.EncodeToString([]byte(value)))
	mu.Unlock()
}

// N selects a bound by tier.
func N(quick, thorough int) int {
	if cur.tier == 1 {
		return thorough
	}
	return quick
}

func Thorough() bool { return cur.tier == 1 }
func Symbolic() bool { return false }

// Opt sets an option of the symbolic executor.
func Opt(name string, val int) {}

// Printed reports whether the code under test wrote to standard output.
func Printed() bool {
	if cur.out == nil {
		return false
	}
	st, err := cur.out.Stat()
	return err == nil && st.Size() > 0
}

// Concrete forces the executor to enumerate the values of s.
func Concrete(s string) string { return s }
func ConcreteInt(v int) int    { return v }
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func Iff(a, b bool) bool       { return a == b }
func SameFloat(a, b float64) bool {
	if a != a && b != b {
		return true
	}
	return math.Float64bits(a) == math.Float64bits(b)
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Go runs the functions concurrently and waits for all of them.
func Go(fns ...func()) {
	var wg sync.WaitGroup
	var first interface{}
	start := make(chan struct{})
	for _, f := range fns {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if first == nil {
						first = r
					}
					mu.Unlock()
				}
			}()
			<-start
			f()
		}(f)
	}
	close(start)
	wg.Wait()
	if first != nil {
		panic(first)
	}
}
