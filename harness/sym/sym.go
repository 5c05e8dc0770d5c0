// Package sym is the interface between the verification harnesses and the
// symbolic engine. The engine intercepts every function in this file except
// SortSlice; compiled natively, the same functions read concrete values (a
// solver model) so that a harness can be replayed against the real build.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
)

type Input struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Choices []int             `json:"choices"`
	Vals    map[string]string `json:"vals"`
}

type Report struct {
	Failed  []string          `json:"failed"`
	Assume  bool              `json:"assume_failed"`
	Panic   string            `json:"panic"`
	Done    bool              `json:"done"`
	Observe map[string]string `json:"observe"`
	Order   []string          `json:"order"`
	Details map[string]string `json:"details"`
}

var (
	in  Input
	nch int
	Out = Report{Observe: map[string]string{}, Details: map[string]string{}}
)

type assumeFail struct{}

// Load reads the concrete input of a replay.
func Load(path string) Input {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	return in
}

// Run executes a harness natively and records the outcome.
func Run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFail); ok {
				Out.Assume = true
				return
			}
			Out.Panic = fmt.Sprint(r)
		}
	}()
	if !strings.HasSuffix(in.Harness, "_Conc") {
		f()
		Out.Done = true
		return
	}
	// the scheduler is not under control here: try many runs
	end := time.Now().Add(6 * time.Second)
	for i := 0; i < 300 && len(Out.Failed) == 0 && time.Now().Before(end); i++ {
		nch = 0
		base = runtime.NumGoroutine()
		Out.Order = nil
		jitter = i%3 != 0
		done := make(chan any)
		go func() { // a separate goroutine, so that a wait without end is noticed
			defer func() { done <- recover() }()
			f()
		}()
		select {
		case r := <-done:
			if r != nil {
				panic(r)
			}
		case <-time.After(3 * time.Second):
			panic("goroutines wait for each other for ever")
		}
	}
	Out.Done = true
}

var (
	base   int
	jitter bool
)

// Settle waits until no other goroutine of the harness can go on and returns
// how many have not ended.
func Settle() int {
	n := 0
	for i := 0; i < 200; i++ {
		n = runtime.NumGoroutine() - base - 1
		if n <= 0 {
			return 0
		}
		time.Sleep(time.Duration(i) * 50 * time.Microsecond)
	}
	return n
}

// Jitter delays a native run at random; all schedules are explored symbolically.
func Jitter() {
	if jitter {
		switch rand.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)
		}
	}
}

// Range is a configuration choice: every value in [lo,hi] is explored.
func Range(name string, lo, hi int) int {
	if hi < lo {
		panic(assumeFail{})
	}
	v := lo
	if nch < len(in.Choices) {
		v = in.Choices[nch]
	}
	nch++
	return v
}

// Tier selects a bound by tier.
func Tier(quick, thorough int) int {
	if in.Tier == "thorough" {
		return thorough
	}
	return quick
}

func key(name string, idx int) string { return name + "." + strconv.Itoa(idx) }

// Float is an arbitrary finite float64 (an arbitrary bit pattern in _FP harnesses).
func Float(name string, idx int) float64 {
	s, ok := in.Vals[key(name, idx)]
	if !ok {
		return 0
	}
	u, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic(err)
	}
	return math.Float64frombits(u)
}

// FloatIn is an arbitrary float64 in [lo,hi], never -0 if lo is 0.
func FloatIn(name string, idx int, lo, hi float64) float64 {
	if _, ok := in.Vals[key(name, idx)]; !ok {
		return lo
	}
	return Float(name, idx)
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, idx int, lo, hi int64) int64 {
	s, ok := in.Vals[key(name, idx)]
	if !ok {
		return lo
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

// Bool is an arbitrary boolean.
func Bool(name string, idx int) bool { return in.Vals[key(name, idx)] == "true" }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(assumeFail{})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		Out.Failed = append(Out.Failed, label)
	}
}

// Panics runs f and says whether it panicked.
func Panics(f func()) (r bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(assumeFail); ok {
				panic(x)
			}
			r = true
		}
	}()
	f()
	return false
}

// Eq compares numerically: exact in the engine, with a rounding tolerance natively.
func Eq(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= 1e-6*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// AssertEq asserts Eq(a, b).
func AssertEq(a, b float64, label string) {
	if !Eq(a, b) {
		Out.Failed = append(Out.Failed, label)
		Out.Details[label] = fmt.Sprintf("got %v, want %v", a, b)
	}
}

// AssertLe asserts a <= b (with tolerance natively).
func AssertLe(a, b float64, label string) {
	if !(a <= b) && !Eq(a, b) {
		Out.Failed = append(Out.Failed, label)
		Out.Details[label] = fmt.Sprintf("%v <= %v does not hold", a, b)
	}
}

// Observe reports a value for the comparison of engine and native run.
func Observe(name string, idx int, v float64) {
	label := key(name, idx)
	Out.Order = append(Out.Order, label)
	Out.Observe[label] = strconv.FormatUint(math.Float64bits(v), 16)
}

// Symbolic says whether the harness runs in the engine.
func Symbolic() bool { return false }

// LenAny and SwapAny support SortSlice.
func LenAny(x any) int { return reflect.ValueOf(x).Len() }

func SwapAny(x any, i, j int) { reflect.Swapper(x)(i, j) }

// SortSlice is the engine's model of sort.Slice: insertion sort, which is what
// sort.Slice runs below 12 elements.
func SortSlice(x any, less func(i, j int) bool) {
	n := LenAny(x)
	for i := 1; i < n; i++ {
		for k := i; k > 0 && less(k, k-1); k-- {
			SwapAny(x, k, k-1)
		}
	}
}
