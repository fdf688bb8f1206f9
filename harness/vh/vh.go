// Package vh is the interface between harnesses and the symbolic executor.
// The executor intercepts these functions; compiled natively they replay one
// concrete case read from standard input.
package vh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"runtime"
	"strings"
	"sync"
)

type kase struct {
	Harness string             `json:"harness"`
	Nums    map[string]float64 `json:"nums"`
	Ints    map[string]int64   `json:"ints"`
	Bools   map[string]bool    `json:"bools"`
	Choices map[string]int64   `json:"choices"`
	Derivs  map[string]float64 `json:"derivs"`
	Thor    bool               `json:"thorough"`
	Warm    []kase             `json:"warm"`
	Tight   bool               `json:"tight"`
}

var cur kase
var names = map[string]int{}

func uniq(n string) string {
	k := names[n]
	names[n] = k + 1
	return fmt.Sprintf("%s#%d", n, k)
}

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	n := uniq(name)
	if lo == hi {
		return lo
	}
	if v, ok := cur.Ints[n]; ok {
		return int(v)
	}
	if lo > 0 {
		return lo
	}
	if hi < 0 {
		return hi
	}
	return 0
}

func defaultVal(name string) float64 {
	h := fnv.New32a()
	h.Write([]byte(name))
	return 0.25 + float64(h.Sum32()%1000)/500
}

// Float is an arbitrary finite float64.
func Float(name string) float64 {
	n := uniq(name)
	if v, ok := cur.Nums[n]; ok {
		return v
	}
	return defaultVal(n)
}

// FloatIn is an arbitrary float64 in [lo, hi].
func FloatIn(name string, lo, hi float64) float64 {
	return math.Max(lo, math.Min(hi, Float(name)))
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return cur.Bools[uniq(name)] }

// Choose forks over 0..n-1.
func Choose(name string, n int) int { return int(cur.Choices[uniq(name)]) }

// Assume restricts the inputs considered from here on.
func Assume(c bool) {
	if !c {
		panic(assumed{})
	}
}

type assumed struct{}

// out takes the observations; the server mode buffers them.
var out io.Writer

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// Assert states an obligation.
func Assert(c bool, label string) { fmt.Fprintf(out, "AS\t%s\t%s\n", label, b01(c)) }

// Eq states that two numbers are equal (both NaN, the same infinity, or equal
// up to rounding).
func Eq(a, b float64, label string) {
	ok := math.IsNaN(a) && math.IsNaN(b) || a == b
	if !ok && cur.Tight {
		ok = math.Abs(a-b) <= 5e-10*(1+math.Max(math.Abs(a), math.Abs(b)))
	}
	ok = ok || !cur.Tight && (math.Abs(a-b) <= 1e-6*(1e-3+math.Max(math.Abs(a), math.Abs(b))) || (math.Abs(a) < 1e-9 && math.Abs(b) < 1e-9))
	fmt.Fprintf(out, "EQ\t%s\t%v\t%v\t%s\n", label, a, b, b01(ok))
}

// Cover marks a point that must be reachable.
func Cover(label string) {}

// Finite reports whether a value is neither NaN nor infinite.
func Finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// Symbolic is true under the executor and false natively.
func Symbolic() bool { return false }

// Thorough is true in the thorough tier.
func Thorough() bool { return cur.Thor }

// Test forks on a condition (keeps terms apart that a branch would fork on anyway).
func Test(c bool) bool { return c }

// Conc enumerates the values of a symbolic integer.
func Conc(n int) int { return n }

// Deriv is the derivative of y with respect to the input x. The executor
// differentiates the term y symbolically; natively the value comes from the case.
func Deriv(y, x float64) float64 {
	v, ok := cur.Derivs[uniq("deriv")]
	if !ok {
		Assume(false)
	}
	return v
}

// DrawKind is the kind of the one random draw a value depends on: u for
// uniform, n for normal (executor only, kind natively).
func DrawKind(x float64, kind string) string { return kind }

// DrawID tells draws apart (natively, values).
func DrawID(x float64) int { return int(math.Float64bits(x)) }

// Draw is the one random draw a value depends on (executor only).
func Draw(x float64) float64 { return 0 }

// Unrestricted states that the path has not narrowed down the draw behind x
// (executor only).
func Unrestricted(x float64) bool { return true }

// Steps is the number of instructions executed so far (executor only).
func Steps() int { return 0 }

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumed); ok {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Parallel runs f and g concurrently. The executor decides that their
// footprints do not conflict; natively the race detector watches.
func Parallel(f, g func(), label string) {
	uniqChoose := Choose("order", 2)
	_ = uniqChoose
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, fn := range []func(){f, g} {
		wg.Add(1)
		go func(fn func()) {
			defer wg.Done()
			<-start
			fn()
		}(fn)
	}
	runtime.Gosched()
	close(start)
	wg.Wait()
	fmt.Fprintf(out, "AS\t%s\t1\n", label)
}

// Main replays the case on standard input; with an argument, one case per line.
func Main(hs map[string]func()) {
	out = os.Stdout
	if len(os.Args) > 1 {
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		w := bufio.NewWriterSize(os.Stdout, 1<<16)
		out = w
		for {
			l, err := in.ReadBytes('\n')
			if err != nil {
				return
			}
			one(hs, l)
			fmt.Fprintln(w, "END")
			w.Flush()
		}
	}
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		fmt.Fprintln(out, "ERR\t", err)
		return
	}
	one(hs, b)
}

func one(hs map[string]func(), b []byte) {
	cur = kase{}
	names = map[string]int{}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Fprintln(out, "ERR\t", err)
		return
	}
	f := hs[cur.Harness]
	if f == nil {
		fmt.Fprintln(out, "ERR\tno harness")
		return
	}
	if main := cur; len(main.Warm) > 0 {
		o := out
		for _, k := range main.Warm {
			cur, out = k, io.Discard
			cur.Thor = main.Thor
			names = map[string]int{}
			quietly(f)
		}
		cur, out = main, o
		names = map[string]int{}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumed); ok {
				fmt.Fprintln(out, "ASSUME")
				return
			}
			fmt.Fprintln(out, "PANIC\t"+strings.ReplaceAll(fmt.Sprint(r), "\n", " "))
		}
	}()
	f()
}

func quietly(f func()) {
	defer func() { recover() }()
	f()
}
