// Package nd is the vocabulary of the harnesses. The symbolic executor
// replaces every function; compiled natively (for replay) they read the
// recorded values of one counterexample.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

type value struct {
	Label string   `json:"label"`
	Kind  string   `json:"kind"`
	V     []uint64 `json:"v"`
}

var mu sync.Mutex
var values = map[string][]value{}
var thorough bool
var reached = map[string]bool{}
var inBubble bool

// Load reads the recorded values.
func Load(path string) (harness string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var f struct {
		Harness  string  `json:"harness"`
		Values   []value `json:"values"`
		Thorough bool    `json:"thorough"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	for _, v := range f.Values {
		values[v.Label] = append(values[v.Label], v)
	}
	thorough = f.Thorough
	inBubble = true
	return f.Harness
}

func get(label string) []uint64 {
	mu.Lock()
	defer mu.Unlock()
	q := values[label]
	if len(q) == 0 {
		return nil
	}
	values[label] = q[1:]
	return q[0].V
}

func one(label string) uint64 {
	v := get(label)
	if len(v) == 0 {
		return 0
	}
	return v[0]
}

// Symbolic inputs.
func Byte(label string) byte     { return byte(one(label)) }
func Uint32(label string) uint32 { return uint32(one(label)) }
func Uint64(label string) uint64 { return one(label) }
func Int64(label string) int64   { return int64(one(label)) }
func Int(label string) int       { return int(one(label)) }
func Bool(label string) bool     { return one(label) == 1 }
func Bytes(label string, n int) []byte {
	v := get(label)
	b := make([]byte, n)
	for i := range b {
		if i < len(v) {
			b[i] = byte(v[i])
		}
	}
	return b
}
func String(label string, n int) string { return string(Bytes(label, n)) }

// Choose returns any of 0..n-1; every value is explored.
func Choose(label string, n int) int {
	if n <= 1 {
		get(label)
		return 0
	}
	return int(one(label))
}

func out(s string) { os.Stdout.WriteString(s + "\n") }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		out("ND-ASSUME")
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(c bool, id string) {
	if !c {
		out("ND-FAIL " + id)
		os.Exit(3)
	}
}

// Reach marks a point that at least one path must reach.
func Reach(label string) {
	mu.Lock()
	reached[label] = true
	mu.Unlock()
}

// Done ends a native run.
func Done() {
	var s []string
	for k := range reached {
		s = append(s, k)
	}
	sort.Strings(s)
	out("ND-OK " + strings.Join(s, ","))
	os.Exit(0)
}

func Thorough() bool { return thorough }
func Symbolic() bool { return false }
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Config sets an exploration parameter; it has no effect natively.
func Config(key string, n int) {}
func Concrete(x uint64) uint64 { return x }
func Trace(x ...interface{}) {
	if os.Getenv("ND_TRACE") != "" {
		fmt.Printf("TRACE %+v\n", x)
	}
}

// Settle waits until every other goroutine is blocked.
func Settle() { synctest.Wait() }

// Goroutines is the number of goroutines that have not ended. (Call it when they
// have settled, and compare it with an earlier number.)
func Goroutines() int {
	b := make([]byte, 1<<22)
	x := string(b[:runtime.Stack(b, true)])
	return strings.Count(x, "\ncreated by ") - strings.Count(x, "\ncreated by testing")
}

// Advance lets virtual time pass.
func Advance(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}
func Note(s string) {}
