package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C05: reductions against the defining statistics.

func statF(op int, v []float64) float64 {
	switch op {
	case 0:
		return sumOf(v)
	case 1, 2:
		return meanOf(v)
	case 3:
		return varOf(v)
	case 4:
		return math.Sqrt(varOf(v))
	case 5:
		m := v[0]
		for _, x := range v {
			m = maxf(m, x)
		}
		return m
	}
	m := v[0]
	for _, x := range v {
		m = minf(m, x)
	}
	return m
}

var statName = []string{"sum", "avg", "mean", "var", "std", "max", "min"}

func statT(op int, t T) float64 {
	switch op {
	case 0:
		return t.Sum()
	case 1:
		return t.Avg()
	case 2:
		return t.Mean()
	case 3:
		return t.Var()
	case 4:
		return t.Std()
	case 5:
		return t.Max()
	}
	return t.Min()
}

func alongT(op int, t T, dim int) (T, error) {
	switch op {
	case 0:
		return t.SumAlong(dim)
	case 1:
		return t.AvgAlong(dim)
	case 2:
		return t.MeanAlong(dim)
	case 3:
		return t.VarAlong(dim)
	case 4:
		return t.StdAlong(dim)
	case 5:
		return t.MaxAlong(dim)
	}
	return t.MinAlong(dim)
}

func alongA(op int, a A, dim int) A {
	r := newA(without(a.sh, dim))
	for i := range r.d {
		r.d[i] = statF(op, fibre(a, dim, idx(r.sh, i)))
	}
	return r
}

func checkAll(op int, a A, t T, label string) {
	vh.Eq(statT(op, t), statF(op, a.d), label)
	eqT(t, a, label+": operand unchanged")
}

func checkAlong(op int, a A, t T, dim int, label string) {
	o, err := alongT(op, t, dim)
	if !good(o, err, label) {
		return
	}
	eqT(o, alongA(op, a, dim), label)
	eqT(t, a, label+": operand unchanged")
}

// sum, mean, variance and deviation of everything
func C05_all() {
	op := vh.Choose("op", 5)
	a := arr("x", shape("s", 0, pick(5, 6), 3, pick(8, 12)))
	checkAll(op, a, mk(a, vh.Choose("tracked", 2) == 1), statName[op])
}

func C05_along() {
	op := vh.Choose("op", 5)
	sh := shape("s", 1, pick(5, 6), 3, pick(12, 16))
	d := vh.Choose("dim", len(sh))
	a := arr("x", sh)
	checkAlong(op, a, mk(a, vh.Choose("tracked", 2) == 1), d, statName[op]+"along")
}

// extrema, every order and tie of the elements
func C05_extrema_all() {
	op := 5 + vh.Choose("op", 2)
	a := arr("x", shape("s", 0, pick(4, 6), 4, pick(4, 5)))
	checkAll(op, a, mk(a, false), statName[op])
}

func C05_extrema_along() {
	op := 5 + vh.Choose("op", 2)
	sh := shape("s", 1, pick(4, 6), 4, pick(4, 5))
	d := vh.Choose("dim", len(sh))
	a := arr("x", sh)
	checkAlong(op, a, mk(a, false), d, statName[op]+"along")
}

// extrema of larger tensors whose elements lie in known disjoint intervals
func spread(name string, sh []int, step float64) A {
	a := newA(sh)
	n := len(a.d)
	for i := range a.d {
		c := float64((i*7+3)%n)*step - float64(n/2)*step
		a.d[i] = vh.FloatIn(name, c-step/4, c+step/4)
	}
	return a
}

var bigShapes = [][]int{{37}, {130}, {5, 8}, {1, 23}, {23, 1}, {3, 4, 5}, {2, 3, 2, 4}, {3, 1, 2, 2, 3}, {2, 2, 3, 1, 2, 3}, {4, 1, 1, 5}, {11, 12}, {260, 2}, {2, 260}, {1030}, {2, 1, 2, 1, 2, 1, 2, 1, 2}}

func C05_extrema_large() {
	op := 5 + vh.Choose("op", 2)
	sh := bigShapes[vh.Choose("shape", len(bigShapes))]
	step := []float64{1, -3, 1e12, 1e-9}[vh.Choose("step", 4)]
	a := newA(sh)
	if step < 0 { // all negative
		a = spread("x", sh, 1)
		b := newA(sh)
		for i := range a.d {
			b.d[i] = a.d[i] - 1000
		}
		a = b
	} else {
		a = spread("x", sh, step)
	}
	k := vh.Choose("dim", len(sh)+1)
	if k == len(sh) {
		checkAll(op, a, mk(a, false), statName[op]+" large")
		return
	}
	checkAlong(op, a, mk(a, false), k, statName[op]+"along large")
}

func C05_large() {
	op := vh.Choose("op", 5)
	sh := bigShapes[vh.Choose("shape", len(bigShapes))]
	k := vh.Choose("dim", len(sh)+1)
	a := arrIn("x", sh, -100, 100)
	if op >= 3 && (k == len(sh) && len(a.d) > 40 || k < len(sh) && sh[k] > 40) {
		// along one parameter
		s, u := vh.FloatIn("s", 0.5, 2), vh.FloatIn("u", -100, 100)
		for i := range a.d {
			a.d[i] = u + s*float64(i*i%23-9)
		}
	}
	if k == len(sh) {
		checkAll(op, a, mk(a, false), statName[op]+" large")
		return
	}
	checkAlong(op, a, mk(a, false), k, statName[op]+"along large")
}

// a large common offset: the spread stays the spread
func C05_offset() {
	op := vh.Choose("op", 5)
	sh := [][]int{{3}, {2, 3}, {3, 2}, {4, 2, 2}}[vh.Choose("shape", 4)]
	base := []float64{1e8, -1e8, 1e6}[vh.Choose("base", 3)]
	a := arrIn("x", sh, base, base+4)
	k := vh.Choose("dim", len(sh)+1)
	if k == len(sh) {
		checkAll(op, a, mk(a, false), statName[op]+" offset")
		return
	}
	checkAlong(op, a, mk(a, false), k, statName[op]+"along offset")
}
