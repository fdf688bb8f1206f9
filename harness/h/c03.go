package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C03: element-wise operations against the scalar functions.

func unaryT(op int, t T, u float64) T {
	switch op {
	case 0:
		return t.Scale(u)
	case 1:
		return t.Exp()
	case 2:
		return t.Log()
	case 3:
		return t.Sin()
	case 4:
		return t.Cos()
	case 5:
		return t.Tan()
	case 6:
		return t.Sinh()
	case 7:
		return t.Cosh()
	case 8:
		return t.Tanh()
	}
	return t.Pow(u)
}

func unaryF(op int, x, u float64) float64 {
	switch op {
	case 0:
		return u * x
	case 1:
		return math.Exp(x)
	case 2:
		return math.Log(x)
	case 3:
		return math.Sin(x)
	case 4:
		return math.Cos(x)
	case 5:
		return math.Sin(x) / math.Cos(x)
	case 6:
		return (math.Exp(x) - math.Exp(-x)) / 2
	case 7:
		return (math.Exp(x) + math.Exp(-x)) / 2
	case 8:
		return math.Tanh(x)
	}
	return math.Pow(x, u)
}

func C03_unary() {
	op := vh.Choose("op", 9)
	lo, hi := -700.0, 700.0
	u := 0.
	var a A
	if op == 0 {
		sh := shape("s", 0, pick(5, 6), 3, pick(8, 12))
		a = arr("x", sh)
		u = vh.Float("u")
	} else {
		sh := shape("s", 0, pick(4, 6), 3, pick(6, 8))
		if op == 2 {
			lo, hi = 1e-300, 1e300
		}
		a = arrIn("x", sh, lo, hi)
	}
	t := mk(a, vh.Choose("tracked", 2) == 1)
	o := unaryT(op, t, u)
	w := a.mapf(func(x float64) float64 { return unaryF(op, x, u) })
	eqT(o, w, "unary")
	eqT(t, a, "operand unchanged")
}

// every finite value, including overflowing and undefined results
func C03_unary_any() {
	op := 1 + vh.Choose("op", 8)
	sh := shape("s", 0, 2, 2, pick(1, 2))
	a := arr("x", sh)
	if op == 5 {
		vh.Assume(len(a.d) == 1)
	}
	o := unaryT(op, mk(a, false), 0)
	if op == 8 {
		g := read(o)
		for i, x := range a.d {
			vh.Assert(g.d[i] >= -1 && g.d[i] <= 1, "tanh range")
			vh.Eq(g.d[i], math.Tanh(x), "tanh")
		}
		return
	}
	if op == 6 || op == 7 { // the reference overflows a little earlier than the function
		for _, x := range a.d {
			vh.Assume(x < 709 && x > -709 || x > 711 || x < -711)
		}
	}
	eqT(o, a.mapf(func(x float64) float64 { return unaryF(op, x, 0) }), []string{"scale", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh"}[op])
}

func C03_pow() {
	es := []float64{0, 1, 2, 3, 5, 8, -1, -2, -3, 0.5, 1.5, -0.5, 2.5, 1. / 3}
	e := es[vh.Choose("e", len(es))]
	sh := shape("s", 0, 3, 2, pick(2, 4))
	a := arr("x", sh)
	if e < 0 && e != -2 { // 1/0 keeps the sign of its zero, which reals do not have
		for _, x := range a.d {
			vh.Assume(x != 0)
		}
	}
	eqT(mk(a, vh.Choose("tracked", 2) == 1).Pow(e), a.mapf(func(x float64) float64 { return math.Pow(x, e) }), "pow")
}

// any exponent over positive bases
func C03_powany() {
	r := [][2]float64{{0.1, 0.9}, {1.1, 1.9}, {4.1, 12}, {-12, -2.1}}[vh.Choose("u", 4)]
	u := vh.FloatIn("u", r[0], r[1])
	a := arrIn("x", shape("s", 0, 2, 2, 4), 0.1, 10)
	eqT(mk(a, false).Pow(u), a.mapf(func(x float64) float64 { return math.Pow(x, u) }), "pow")
}

func binF(op int, x, y float64) float64 {
	switch op {
	case 0:
		return x + y
	case 1:
		return x - y
	case 2:
		return x * y
	case 3:
		return x / y
	case 4:
		return maxf(x, y)
	}
	return minf(x, y)
}

func nonzero(a A) {
	for _, v := range a.d {
		vh.Assume(v > 1e-9 || v < -1e-9)
	}
}

func checkBin(op int, a, b A, ta, tb T, label string) {
	w := el2(a, b, func(x, y float64) float64 { return binF(op, x, y) })
	o, err := bin(op, ta, tb)
	if !good(o, err, label) {
		return
	}
	eqT(o, w, label)
	eqT(ta, a, label+": operand unchanged")
	eqT(tb, b, label+": operand unchanged")
	ea, err := ta.Broadcast(cp(w.sh))
	if !good(ea, err, label+": explicit") {
		return
	}
	eb, err := tb.Broadcast(cp(w.sh))
	if !good(eb, err, label+": explicit") {
		return
	}
	p, err := bin(op, ea, eb)
	if good(p, err, label+": explicit") {
		eqT(p, w, label+": explicit")
	}
}

func C03_binary() {
	op := vh.Choose("op", 4)
	sa, sb, _ := bcPair("p", pick(3, 4), 3, pick(8, 12))
	a, b := arr("a", sa), arr("b", sb)
	if op == 3 {
		nonzero(b)
	}
	checkBin(op, a, b, mk(a, vh.Choose("tracked", 2) == 1), mk(b, false), binName[op])
}

// higher ranks, several dimensions expanding at once
func C03_binary_rank() {
	op := vh.Choose("op", 2) * 2
	sa, sb, _ := bcPair("p", pick(5, 6), 2, pick(8, 16))
	if len(sa) < 4 && len(sb) < 4 {
		return
	}
	a, b := arr("a", sa), arr("b", sb)
	checkBin(op, a, b, mk(a, false), mk(b, false), binName[op])
}

// hand-picked larger pairs
func C03_binary_large() {
	ps := [][2][]int{
		{{7, 5}, {5}}, {{7, 1}, {1, 5}}, {{5}, {7, 1}}, {{3, 1, 4}, {2, 1}}, {{4, 3, 2}, {3, 1}}, {{2, 1, 3, 1}, {4, 1, 5}},
		{{40}, {1}}, {{}, {6, 7}}, {{1, 1, 1}, {9}}, {{6, 5, 4}, {6, 5, 4}}, {{1, 2, 1, 2, 1, 2}, {2, 1, 2, 1, 2, 1}}, {{130}, {130}},
		{{65, 2}, {2}}, {{2, 65}, {2, 1}}, {{10, 1}, {1, 13}},
		{{1100}, {1100}}, {{1030}, {}}, {{260, 4}, {4}}, {{4, 260}, {4, 1}}, {{33, 1}, {33}}, {{2, 1, 2, 1, 2, 1, 2, 1, 2}, {1, 2, 1, 1, 2, 1, 2, 1}},
	}
	p := ps[vh.Choose("pair", len(ps))]
	op := vh.Choose("op", 4)
	a, b := arr("a", p[0]), arrIn("b", p[1], 0.5, 90)
	if vh.Choose("swap", 2) == 1 && op != 3 {
		a, b = b, a
	}
	checkBin(op, a, b, mk(a, false), mk(b, false), binName[op])
}

// any divisor
func C03_div() {
	sa, sb, _ := bcPair("p", 2, 2, 2)
	a, b := arr("a", sa), arr("b", sb)
	for i := range a.d {
		vh.Assume(a.d[i] != 0)
	}
	w := el2(a, b, func(x, y float64) float64 {
		if y == 0 {
			return 0
		}
		return x / y
	})
	o, err := mk(a, false).Div(mk(b, false))
	if !good(o, err, "div") {
		return
	}
	vh.Assert(sameShape(o.Shape(), w.sh), "div: shape")
	g := read(o)
	for i := range g.d {
		if b.at(bcIdx(b.sh, idx(w.sh, i))) == 0 {
			vh.Assert(math.IsInf(g.d[i], 0), "div by zero")
		} else {
			vh.Eq(g.d[i], w.d[i], "div")
		}
	}
}

// the same tensor on both sides
func C03_self() {
	op := vh.Choose("op", 6)
	a := arr("x", shape("s", 0, 3, 2, 4))
	if op == 3 {
		nonzero(a)
	}
	t := mk(a, vh.Choose("tracked", 2) == 1)
	checkBin(op, a, a, t, t, binName[op]+"-self")
}

// element-wise maxima and minima, every order and tie
func C03_extrema() {
	op := 4 + vh.Choose("op", 2)
	sh := shape("s", 0, 4, 3, pick(4, 5))
	a, b := arr("a", sh), arr("b", sh)
	if vh.Choose("tie", 2) == 1 && len(a.d) > 0 {
		b.d[0] = a.d[0]
	}
	o, err := bin(op, mk(a, false), mk(b, false))
	if !good(o, err, binName[op]) {
		return
	}
	eqT(o, el2(a, b, func(x, y float64) float64 { return binF(op, x, y) }), binName[op])
}

func cmpT(op int, a, b T) (T, error) {
	switch op {
	case 0:
		return a.Eq(b)
	case 1:
		return a.Ne(b)
	case 2:
		return a.Gt(b)
	case 3:
		return a.Ge(b)
	case 4:
		return a.Lt(b)
	}
	return a.Le(b)
}

var cmpName = []string{"eq", "ne", "gt", "ge", "lt", "le"}

func cmpF(op int, x, y float64) float64 {
	r := false
	switch op {
	case 0:
		r = x == y
	case 1:
		r = x != y
	case 2:
		r = x > y
	case 3:
		r = x >= y
	case 4:
		r = x < y
	default:
		r = x <= y
	}
	if r {
		return 1
	}
	return 0
}

// farOrEqual: identical, or further apart than the equality tolerance
func farOrEqual(a, b A) {
	for i := range a.d {
		d := a.d[i] - b.d[i]
		vh.Assume(d == 0 || d > 1e-100 || d < -1e-100)
	}
}

func C03_compare() {
	op := vh.Choose("op", 6)
	sh := shape("s", 0, 4, 3, pick(4, 5))
	a, b := arr("a", sh), arr("b", sh)
	farOrEqual(a, b)
	o, err := cmpT(op, mk(a, vh.Choose("tracked", 2) == 1), mk(b, false))
	if !good(o, err, cmpName[op]) {
		return
	}
	eqT(o, el2(a, b, func(x, y float64) float64 { return cmpF(op, x, y) }), cmpName[op])
}

// close but different values, and magnitudes far apart
func C03_compare_near() {
	op := vh.Choose("op", 6)
	ds := []float64{0, 1e-3, -1e-9, 1e-30, -1e-90, 1e3, 1e300}
	d := ds[vh.Choose("d", len(ds))]
	a := newA([]int{2})
	b := newA([]int{2})
	a.d[0] = vh.FloatIn("x", -1e-3, 1e-3)
	a.d[1] = 0
	b.d[0] = a.d[0]
	b.d[1] = d
	o, err := cmpT(op, mk(a, false), mk(b, false))
	if !good(o, err, cmpName[op]) {
		return
	}
	eqT(o, el2(a, b, func(x, y float64) float64 { return cmpF(op, x, y) }), cmpName[op]+" near")
}

func C03_equals() {
	sh := shape("s", 0, 4, 3, pick(6, 8))
	a, b := arr("a", sh), arr("b", sh)
	farOrEqual(a, b)
	r, err := mk(a, false).Equals(mk(b, vh.Choose("tracked", 2) == 1))
	vh.Assert(err == nil, "equals: error")
	w := true
	for i := range a.d {
		if a.d[i] != b.d[i] {
			w = false
		}
	}
	vh.Assert(r == w, "equals")
}

// one position differing in a larger tensor
func C03_equals_large() {
	sh := [][]int{{37}, {5, 7}, {3, 2, 5}, {2, 2, 2, 3}, {2, 1, 2, 1, 2, 2}}[vh.Choose("shape", 5)]
	a := arr("a", sh)
	b := newA(sh)
	copy(b.d, a.d)
	k := vh.Choose("pos", prod(sh)+1)
	if k < prod(sh) {
		b.d[k] = vh.Float("y")
		vh.Assume(b.d[k]-a.d[k] > 1e-100)
	}
	r, err := mk(a, false).Equals(mk(b, false))
	vh.Assert(err == nil, "equals: error")
	vh.Assert(r == (k == prod(sh)), "equals large")
	o, err := mk(a, false).Ne(mk(b, false))
	if good(o, err, "ne large") {
		w := newA(sh)
		if k < prod(sh) {
			w.d[k] = 1
		}
		eqT(o, w, "ne large")
	}
}

func C03_unary_large() {
	op := vh.Choose("op", 10)
	sh := [][]int{{130}, {9, 11}, {4, 3, 5}, {2, 3, 2, 4}, {2, 1, 3, 2, 2}, {2, 2, 2, 1, 2, 3}, {1100}, {4, 260}, {33, 33}, {2, 1, 2, 1, 2, 1, 2, 1, 2}}[vh.Choose("shape", 10)]
	a := arrIn("x", sh, 0.5, 40)
	u := 3.
	if op == 0 {
		u = vh.Float("u")
	}
	eqT(unaryT(op, mk(a, false), u), a.mapf(func(x float64) float64 { return unaryF(op, x, u) }), "unary large")
}

var _ = tensor.CPU

var exactV = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -2.75, 1e-9, -1e-9, 1e-100, 3e-200, -3e-200, 1e9, -1e9 - 1, 1e100, -1e200, 3e307, math.MaxFloat64, -math.MaxFloat64, 710, -745, 1e-12}

// exact values of every magnitude; the float behaviour is checked by the
// native replay
func C03_exact() {
	a, b := exactV[vh.Choose("a", len(exactV))], 2.
	kind := vh.Choose("kind", 3)
	if kind > 0 {
		b = exactV[vh.Choose("b", len(exactV))]
	}
	x, y := A{[]int{2}, []float64{a, 1}}, A{[]int{2}, []float64{b, 1}}
	switch kind {
	case 0:
		op := vh.Choose("op", 10)
		u := []float64{0, 1, 2, -1, 3, 0.5, -2, 1e200}[vh.Choose("u", 8)]
		if op > 0 && op < 9 && u != 2 {
			return
		}
		if (op >= 3 && op <= 5) && absf(a) > 1e5 {
			return
		}
		if (op == 2 || op == 9) && a <= 0 {
			return
		}
		w := unaryF(op, a, u)
		if op == 6 || op == 7 || op == 8 {
			if absf(a) > 700 {
				return
			}
			if op == 6 && absf(a) < 1e-3 {
				w = a
			}
		}
		v, err := unaryT(op, mk(x, false), u).At(0)
		vh.Assert(err == nil, "exact: At")
		vh.Eq(v, w, "exact unary")
	case 1:
		op := vh.Choose("op", 6)
		if op == 3 && b == 0 {
			return
		}
		o, err := bin(op, mk(x, false), mk(y, false))
		if good(o, err, "exact") {
			eqT(o, el2(x, y, func(p, q float64) float64 { return binF(op, p, q) }), "exact "+binName[op])
		}
	case 2:
		if a != b && absf(a-b) < 1e-199 {
			return
		}
		op := vh.Choose("op", 6)
		o, err := cmpT(op, mk(x, false), mk(y, false))
		if good(o, err, "exact") {
			eqT(o, el2(x, y, func(p, q float64) float64 { return cmpF(op, p, q) }), "exact "+cmpName[op])
		}
		r, err := mk(x, false).Equals(mk(y, false))
		vh.Assert(err == nil && r == (a == b), "exact equals")
	}
}

// tiny operands are not zero: results relative to the expected ones
func C03_tiny() {
	s := []float64{1e-13, 1e-40, 1e-90}[vh.Choose("scale", 3)]
	sh := [][]int{{}, {2}, {1, 3}}[vh.Choose("shape", 3)]
	sc := func(name string) A {
		neg := vh.Choose("negative", 2) == 1
		return arrIn(name, sh, 0.5, 2).mapf(func(x float64) float64 {
			if neg {
				return -x * s
			}
			return x * s
		})
	}
	a := sc("a")
	rel := func(o T, err error, w A, label string) {
		if !good(o, err, label) || !sameShape(o.Shape(), w.sh) {
			return
		}
		r := read(o)
		for i := range r.d {
			vh.Eq(r.d[i]/w.d[i], 1, label)
		}
	}
	if vh.Choose("binary", 2) == 1 {
		op := 2 + vh.Choose("op", 4)
		b := sc("b")
		if op == 4 || op == 5 {
			a = a.mapf(func(x float64) float64 { return 10 * x })
		}
		o, err := bin(op, mk(a, false), mk(b, false))
		rel(o, err, el2(a, b, func(x, y float64) float64 { return binF(op, x, y) }), "tiny "+binName[op])
		c := vh.FloatIn("c", 1, 2)
		o, err = mk(a, true).Sub(mk(fillA(sh, c*s*100), false))
		rel(o, err, a.mapf(func(x float64) float64 { return x - c*s*100 }), "tiny sub")
		o, err = mk(a, true).Add(mk(fillA(sh, c*s*100), false))
		rel(o, err, a.mapf(func(x float64) float64 { return x + c*s*100 }), "tiny add")
		return
	}
	op := vh.Choose("op", 10)
	u := []float64{2, -1, 1, 3}[vh.Choose("u", 4)]
	if op == 2 {
		a = a.mapf(absf)
	}
	if op == 6 || op == 8 {
		return // the reference of these cancels; see C03_exact
	}
	if op == 3 || op == 5 {
		w := a.mapf(func(x float64) float64 { return unaryF(op, x, u) / s })
		eqT(unaryT(op, mk(a, false), u).Scale(1/s), w, "tiny unary")
		return
	}
	rel(unaryT(op, mk(a, false), u), nil, a.mapf(func(x float64) float64 { return unaryF(op, x, u) }), "tiny unary")
}

// specials: NaN and the infinities next to any number
func specialF3(name string) float64 {
	switch vh.Choose(name, 5) {
	case 1:
		return math.NaN()
	case 2:
		return math.Inf(1)
	case 3:
		return math.Inf(-1)
	case 4:
		return 0
	}
	return vh.Float(name)
}

func C03_special() {
	a := A{[]int{2}, []float64{specialF3("a"), 1}}
	b := A{[]int{2}, []float64{specialF3("b"), 2}}
	if vh.Choose("only one", 2) == 1 {
		b.sh, b.d = []int{}, b.d[:1]
	}
	farOrEqualSpecial(a.d[0], b.d[0])
	op := vh.Choose("op", 9)
	ta, tb := mk(a, false), mk(b, false)
	if op < 6 {
		vh.Assume(len(b.sh) == 1)
		o, err := cmpT(op, ta, tb)
		if good(o, err, "special") {
			eqT(o, el2(a, b, func(x, y float64) float64 { return cmpF(op, x, y) }), cmpName[op]+" special")
		}
		return
	}
	op -= 6
	o, err := bin(op, ta, tb)
	if good(o, err, "special") {
		eqT(o, el2(a, b, func(x, y float64) float64 { return binF(op, x, y) }), binName[op]+" special")
	}
}

func farOrEqualSpecial(x, y float64) {
	if vh.Finite(x) && vh.Finite(y) {
		farOrEqual(A{d: []float64{x}}, A{d: []float64{y}})
	}
}
