package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C02: the backward rule of every operation is its vector-Jacobian product.
// The oracle is the symbolic derivative of the forward value.

type T = tensor.Tensor

func C02_move() {
	op := vh.Choose("op", 5)
	lo := 0
	if op == 0 {
		lo = 2
	}
	if op == 3 || op == 4 {
		lo = 1
	}
	sh := shape("s", lo, pick(4, 5), 3, pick(8, 12))
	x := arr("x", sh)
	vjp([]string{"transpose", "reshape", "unsqueeze", "squeeze", "flatten"}[op], []A{x}, func(t []T) (T, error) {
		switch op {
		case 0:
			return t[0].Transpose()
		case 1:
			n := len(x.d)
			var to []int
			switch vh.Choose("to", 4) {
			case 0:
				to = []int{n}
			case 1:
				to = []int{1, n, 1}
			case 2:
				to = rev(sh)
			case 3:
				if n%2 == 0 {
					to = []int{2, n / 2}
				} else {
					to = []int{n, 1}
				}
			}
			return t[0].Reshape(to)
		case 2:
			return t[0].UnSqueeze(vh.Choose("dim", len(sh)+1))
		case 3:
			d := vh.Choose("dim", len(sh))
			if sh[d] != 1 {
				vh.Assume(false)
			}
			return t[0].Squeeze(d)
		}
		return t[0].Flatten(vh.Choose("dim", len(sh)))
	})
}

func rev(s []int) []int {
	r := make([]int, len(s))
	for i := range s {
		r[len(s)-1-i] = s[i]
	}
	return r
}

func C02_slice() {
	sh := shape("s", 0, pick(3, 4), 3, pick(9, 12))
	ix := rangesFor("ix", sh)
	vjp("slice", []A{arr("x", sh)}, func(t []T) (T, error) { return t[0].Slice(ix) })
}

// patchCase chooses a target shape, an index and a source shape that fits.
func patchCase(maxRank, maxEl int) (dst []int, ix []tensor.Range, src []int) {
	dst = shape("s", 0, maxRank, 3, maxEl)
	ix = rangesFor("ix", dst)
	src = make([]int, len(dst))
	for i := range dst {
		if i < len(ix) && !(ix[i].From == 0 && ix[i].To == 0) {
			src[i] = ix[i].To - ix[i].From
		} else {
			src[i] = 1 + vh.Choose("src", dst[i])
		}
	}
	return
}

func C02_patch() {
	dst, ix, src := patchCase(pick(3, 4), pick(6, 9))
	vjp("patch", []A{arr("x", dst), arr("p", src)}, func(t []T) (T, error) { return t[0].Patch(ix, t[1]) })
}

func C02_concat() {
	base := shape("s", 1, pick(3, 4), 2, 4)
	d := vh.Choose("dim", len(base))
	n := 2 + vh.Choose("n", 2)
	xs := make([]A, n)
	for i := range xs {
		s := cp(base)
		s[d] = 1 + vh.Choose("len", 2)
		xs[i] = arr("x", s)
	}
	vjp("concat", xs, func(t []T) (T, error) { return tensor.Concat(t, d) })
}

// more operands, of every combination of lengths
func C02_concat_many() {
	base := [][]int{{1}, {2, 1}, {1, 2}}[vh.Choose("base", 3)]
	d := 0
	if len(base) == 2 && base[0] == 2 {
		d = 1
	}
	n := 4 + vh.Choose("n", pick(2, 3))
	xs := make([]A, n)
	for i := range xs {
		s := cp(base)
		s[d] = 1 + vh.Choose("len", 2)
		xs[i] = arr("x", s)
	}
	vjp("concat", xs, func(t []T) (T, error) { return tensor.Concat(t, d) })
}

// an operand may appear more than once
func C02_concat_repeat() {
	sh := shape("s", 1, 2, 2, 4)
	d := vh.Choose("dim", len(sh))
	x, b := arr("x", sh), arr("b", sh)
	vjp("concat-repeat", []A{x, b}, func(t []T) (T, error) { return tensor.Concat([]T{t[0], t[1], t[0]}, d) })
}

func C02_reduce() {
	op := vh.Choose("op", 5)
	sh := shape("s", 1, pick(4, 5), 3, pick(8, 12))
	d := vh.Choose("dim", len(sh))
	x := arr("x", sh)
	if op == 4 {
		if len(x.d) > 6 {
			return
		}
		vh.Assume(sh[d] > 1)
		for i := 0; i < prod(without(sh, d)); i++ {
			f := fibre(x, d, idx(without(sh, d), i))
			vh.Assume(varOf(f) > 1e-6)
		}
	}
	vjp([]string{"sumalong", "avgalong", "meanalong", "varalong", "stdalong"}[op], []A{x}, func(t []T) (T, error) {
		switch op {
		case 0:
			return t[0].SumAlong(d)
		case 1:
			return t[0].AvgAlong(d)
		case 2:
			return t[0].MeanAlong(d)
		case 3:
			return t[0].VarAlong(d)
		}
		return t[0].StdAlong(d)
	})
}

// the variance of a single element is constant
func C02_var1() {
	sh := shape("s", 1, 3, 2, 4)
	d := vh.Choose("dim", len(sh))
	sh[d] = 1
	x := arr("x", sh)
	op := vh.Choose("op", 2)
	t := mk(x, true)
	var y T
	var err error
	if op == 0 {
		y, err = t.VarAlong(d)
	} else {
		y, err = t.StdAlong(d)
	}
	if !good(y, err, "var1") {
		return
	}
	g := arr("g", y.Shape())
	z, err := y.Mul(mk(g, false))
	if good(z, err, "var1") && bp(z, "var1") {
		if op == 0 {
			gradIs(t, newA(sh), "var1")
		} else {
			gradA(t, "std1")
		}
	}
}

func C02_extrema() {
	op := vh.Choose("op", 2)
	sh := shape("s", 1, pick(3, 4), 3, pick(6, 8))
	d := vh.Choose("dim", len(sh))
	if prod(sh)/sh[d] > 3 || sh[d] == 3 && prod(sh) > 6 {
		return
	}
	x := arr("x", sh)
	out := without(sh, d)
	for i := 0; i < prod(out); i++ {
		f := fibre(x, d, idx(out, i))
		for j := range f {
			for k := 0; k < j; k++ {
				vh.Assume(f[j]-f[k] > 1e-6 || f[k]-f[j] > 1e-6)
			}
		}
	}
	vjp([]string{"maxalong", "minalong"}[op], []A{x}, func(t []T) (T, error) {
		if op == 0 {
			return t[0].MaxAlong(d)
		}
		return t[0].MinAlong(d)
	})
}

func C02_unary() {
	op := vh.Choose("op", 9)
	sh := shape("s", 0, pick(3, 4), 3, pick(4, 8))
	var x A
	switch op {
	case 0:
		x = arr("x", sh)
	case 2:
		x = arrIn("x", sh, 1e-6, 1e6)
	case 3, 4, 5:
		x = arrIn("x", sh, -1e6, 1e6)
	default:
		x = arrIn("x", sh, -700, 700)
	}
	u := vh.Float("u")
	vjp([]string{"scale", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh"}[op], []A{x}, func(t []T) (T, error) {
		switch op {
		case 0:
			return t[0].Scale(u), nil
		case 1:
			return t[0].Exp(), nil
		case 2:
			return t[0].Log(), nil
		case 3:
			return t[0].Sin(), nil
		case 4:
			return t[0].Cos(), nil
		case 5:
			return t[0].Tan(), nil
		case 6:
			return t[0].Sinh(), nil
		case 7:
			return t[0].Cosh(), nil
		}
		return t[0].Tanh(), nil
	})
}

func C02_pow() {
	e := []float64{0, 1, 2, 3, 4, -1, -2, 0.5, 2.5, -0.5, 1.5, 5, -3}[vh.Choose("e", 13)]
	sh := shape("s", 0, 3, 2, 2)
	var x A
	switch {
	case e == float64(int(e)) && e >= 0:
		x = arr("x", sh)
	case e == float64(int(e)):
		x = arr("x", sh)
		for _, v := range x.d {
			vh.Assume(v > 1e-6 || v < -1e-6)
		}
	default:
		x = arrIn("x", sh, 1e-6, 1e6)
	}
	vjp("pow", []A{x}, func(t []T) (T, error) { return t[0].Pow(e), nil })
}

// base zero beside other bases
func C02_pow0() {
	e := vh.Choose("e", 3)
	sh := shape("s", 0, 2, 2, 3)
	x := newA(sh)
	for i := range x.d {
		if vh.Choose("zero", 2) == 1 {
			x.d[i] = vh.Float("x")
		}
	}
	t := mk(x, true)
	y := t.Pow(float64(e))
	g := arr("g", sh)
	z, err := y.Mul(mk(g, false))
	if !good(z, err, "pow0") || !bp(z, "pow0") {
		return
	}
	want := newA(sh)
	for i := range want.d {
		switch e {
		case 1:
			want.d[i] = g.d[i]
		case 2:
			want.d[i] = 2 * x.d[i] * g.d[i]
		}
	}
	gradIs(t, want, "pow0")
}

// any exponent, positive bases
func C02_powany() {
	r := [][2]float64{{0.1, 0.9}, {1.1, 1.9}, {4.1, 12}, {-12, -1.1}}[vh.Choose("u", 4)]
	u := vh.FloatIn("u", r[0], r[1])
	sh := shape("s", 0, 1, 2, 2)
	x := arrIn("x", sh, 0.1, 10)
	vjp("powany", []A{x}, func(t []T) (T, error) { return t[0].Pow(u), nil })
}

func bin(op int, a, b T) (T, error) {
	switch op {
	case 0:
		return a.Add(b)
	case 1:
		return a.Sub(b)
	case 2:
		return a.Mul(b)
	case 3:
		return a.Div(b)
	case 4:
		return a.ElMax(b)
	}
	return a.ElMin(b)
}

var binName = []string{"add", "sub", "mul", "div", "elmax", "elmin"}

func apart(a, b A) {
	for i := range a.d {
		vh.Assume(a.d[i]-b.d[i] > 1e-6 || b.d[i]-a.d[i] > 1e-6)
	}
}

func C02_binary() {
	op := vh.Choose("op", 6)
	n := pick(6, 8)
	if op >= 4 {
		n = pick(3, 4)
	}
	sh := shape("s", 0, pick(3, 4), 3, n)
	a, b := arr("a", sh), arr("b", sh)
	if op == 3 {
		for _, v := range b.d {
			vh.Assume(v > 1e-6 || v < -1e-6)
		}
	}
	if op >= 4 {
		apart(a, b)
	}
	vjp(binName[op], []A{a, b}, func(t []T) (T, error) { return bin(op, t[0], t[1]) })
}

// both operands the same tensor
func C02_binary_self() {
	op := vh.Choose("op", 6)
	sh := shape("s", 0, 2, 2, 4)
	x := arr("x", sh)
	if op == 3 {
		for _, v := range x.d {
			vh.Assume(v > 1e-6 || v < -1e-6)
		}
	}
	vjp(binName[op]+"-self", []A{x}, func(t []T) (T, error) { return bin(op, t[0], t[0]) })
}

func C02_dot() {
	sh := shape("s", 1, pick(4, 5), 3, pick(9, 12))
	vjp("dot", []A{arr("a", sh), arr("b", sh)}, func(t []T) (T, error) { return t[0].Dot(t[1]) })
}

func C02_matmul() {
	bs := shape("b", 0, pick(2, 3), 2, pick(4, 4))
	m, n, k := 1+vh.Choose("m", 3), 1+vh.Choose("n", 3), 1+vh.Choose("k", 3)
	if len(bs) > 0 && m*n*k*prod(bs) > pick(16, 36) {
		return
	}
	a, b := arr("a", append(cp(bs), m, k)), arr("b", append(cp(bs), k, n))
	vjp("matmul", []A{a, b}, func(t []T) (T, error) { return t[0].MatMul(t[1]) })
}

// the same rules on one larger tensor
func C02_large() {
	op := vh.Choose("op", 14)
	sh := [][]int{{37}, {5, 7}, {3, 2, 5}, {2, 2, 2, 2, 3}, {260}, {2, 130}, {2, 1, 2, 1, 2, 1, 2, 1, 2}}[vh.Choose("shape", 7)]
	last := len(sh) - 1
	x := arrIn("x", sh, 0.5, 90)
	if op <= 9 {
		vjp("large", []A{x}, func(t []T) (T, error) {
			switch op {
			case 0:
				return t[0].Exp(), nil
			case 1:
				return t[0].Log(), nil
			case 2:
				return t[0].Pow(3), nil
			case 3:
				return t[0].SumAlong(last)
			case 4:
				return t[0].AvgAlong(0)
			case 5:
				return t[0].VarAlong(last)
			case 6:
				return t[0].Slice([]tensor.Range{rng(1, sh[0])})
			case 7:
				return t[0].Flatten(0)
			case 8:
				return t[0].Reshape(rev(sh))
			}
			return t[0].Tanh(), nil
		})
		return
	}
	b := arrIn("b", sh, 0.5, 90)
	vjp("large", []A{x, b}, func(t []T) (T, error) {
		switch op {
		case 10:
			return t[0].Mul(t[1])
		case 11:
			return t[0].Div(t[1])
		case 12:
			return t[0].Dot(t[1])
		}
		return tensor.Concat(t, last)
	})
}

// exact operands of extreme magnitude at which the derivative is in range; the
// float behaviour is checked by the native replay
func C02_exact() {
	us := []float64{0, math.Copysign(0, -1), 1, -1.5, 30, -30, 400, -400, 700, -700, 1e-10, 1e-100, -1e-170, 1e-200, 1e10, -1e100, 1e170, 5e-324}
	vs := []float64{1, -1.5, 3e-100, 1e100, -2e-160, 7e-165, 1e-200, 1e160, -3e170, 1e200, 1e-5}
	g := []float64{1, -2.5, 0, 1e5}[vh.Choose("g", 4)]
	op := vh.Choose("op", 15)
	name := "exact"
	one := func(x, y float64) A { return A{[]int{2}, []float64{x, y}} }
	if op < 9 || op >= 13 {
		x := us[vh.Choose("x", len(us))]
		m, d, ok := absf(x), 0., true
		switch op {
		case 0:
			d, ok = -3, true
		case 1:
			d, ok = math.Exp(x), x < 600
		case 2:
			ok = x > 0 && m > 1e-300
			if ok {
				d = 1 / x
			}
		case 3:
			d, ok = math.Cos(x), m < 1e5
		case 4:
			d, ok = -math.Sin(x), m < 1e5
		case 5:
			ok = m < 1e5
			if ok {
				c := math.Cos(x)
				d = 1 / (c * c)
			}
		case 6:
			ok = m < 600
			if ok {
				d = (math.Exp(x) + math.Exp(-x)) / 2
			}
		case 7:
			ok = m < 600
			if ok {
				d = (math.Exp(x) - math.Exp(-x)) / 2
			}
		case 8:
			if m < 20 {
				h := math.Tanh(x)
				d = 1 - h*h
			}
		case 13:
			d, ok = 2*x, m < 1e150
		case 14:
			ok = m > 1e-100
			if ok {
				d = -1 / x / x
			}
		}
		if !ok {
			return
		}
		u := -3.
		if op == 13 {
			u = 2
		}
		if op == 14 {
			u = -1
		}
		if op > 8 {
			op = 9
		}
		t := mk(one(x, 1), true)
		y := unaryT(op, t, u)
		ya := read(y)
		if !vh.Finite(ya.d[0]) {
			return
		}
		z, err := y.Mul(mk(one(g, 0), false))
		if good(z, err, name) && bp(z, name) {
			gradIs(t, one(g*d, 0), name)
		}
		return
	}
	// Add, Sub, Mul, Div
	i, j := vh.Choose("a", len(vs)), vh.Choose("b", len(vs))
	a, b := vs[i], vs[j]
	var da, db float64
	switch op {
	case 9:
		da, db = 1, 1
	case 10:
		da, db = 1, -1
	case 11:
		da, db = b, a
		if absf(a) > 1e150 && absf(b) > 1e150 {
			return
		}
	case 12:
		if absf(a) > 1e50 && absf(b) < 1e-50 || absf(b) < 1e-101 && absf(a) > absf(b)*1e50 {
			return // the derivative or the quotient may be out of range
		}
		da, db = 1/b, -(a/b)/b
		if !vh.Finite(da) || !vh.Finite(db) {
			return
		}
	}
	ta, tb := mk(one(a, 1), true), mk(one(b, 1), true)
	y, err := bin(op-9, ta, tb)
	if !good(y, err, name) {
		return
	}
	z, err := y.Mul(mk(one(g, 0), false))
	if good(z, err, name) && bp(z, name) {
		gradIs(ta, one(g*da, 0), name)
		gradIs(tb, one(g*db, 0), name)
	}
}

// a tiny upstream gradient is not zero
func C02_tiny() {
	s := []float64{1e-13, 1e-40, 1e-90}[vh.Choose("scale", 3)]
	k := vh.Choose("op", 26)
	if k == 6 {
		return // see C07
	}
	x := spacedAt("x", []int{2, 2}, 0.3, 2)
	t := mk(x, true)
	y, err := opUnary(k, t)
	if !good(y, err, "tiny") {
		return
	}
	ya := read(y)
	g := spaced("g", ya.sh, 0.3)
	z, err := y.Mul(mk(g.mapf(func(v float64) float64 { return v * s }), false))
	if !good(z, err, "tiny") || !bp(z, "tiny") {
		return
	}
	total := dotSum(ya, g)
	if r, ok := gradA(t, "tiny"); ok {
		for i := range r.d {
			vh.Eq(r.d[i]/s, vh.Deriv(total, x.d[i]), "tiny upstream")
		}
	}
}

func C02_tiny_binary() {
	s := []float64{1e-13, 1e-40, 1e-90}[vh.Choose("scale", 3)]
	op := vh.Choose("op", 8)
	a := spacedAt("a", []int{2, 2}, 0.3, 2)
	b := spacedAt("b", []int{2, 2}, 0.2, 5)
	ta, tb := mk(a, true), mk(b, true)
	var y T
	var err error
	switch op {
	case 6:
		y, err = ta.Dot(tb)
	case 7:
		y, err = ta.MatMul(tb)
	default:
		y, err = bin(op, ta, tb)
	}
	if !good(y, err, "tiny") {
		return
	}
	ya := read(y)
	g := spaced("g", ya.sh, 0.3)
	z, err := y.Mul(mk(g.mapf(func(v float64) float64 { return v * s }), false))
	if !good(z, err, "tiny") || !bp(z, "tiny") {
		return
	}
	total := dotSum(ya, g)
	for k, t := range []T{ta, tb} {
		if r, ok := gradA(t, "tiny"); ok {
			for i := range r.d {
				vh.Eq(r.d[i]/s, vh.Deriv(total, []A{a, b}[k].d[i]), "tiny upstream")
			}
		}
	}
}
