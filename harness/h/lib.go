// Package h holds the verification harnesses, one family per property. They
// use only the public API of the library; expected values come from the plain
// array arithmetic in this package.
package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// A is a plain row-major array.
type A struct {
	sh []int
	d  []float64
}

func prod(sh []int) int {
	n := 1
	for _, s := range sh {
		n *= s
	}
	return n
}

func cp(x []int) []int { return append([]int{}, x...) }

func newA(sh []int) A { return A{cp(sh), make([]float64, prod(sh))} }

func fillA(sh []int, v float64) A {
	a := newA(sh)
	for i := range a.d {
		a.d[i] = v
	}
	return a
}

// idx is the multi-index of flat position k.
func idx(sh []int, k int) []int {
	r := make([]int, len(sh))
	for i := len(sh) - 1; i >= 0; i-- {
		r[i] = k % sh[i]
		k /= sh[i]
	}
	return r
}

func flat(sh []int, ix []int) int {
	k := 0
	for i := range sh {
		k = k*sh[i] + ix[i]
	}
	return k
}

func (a A) at(ix []int) float64 { return a.d[flat(a.sh, ix)] }

func (a A) mapf(f func(float64) float64) A {
	r := newA(a.sh)
	for i := range a.d {
		r.d[i] = f(a.d[i])
	}
	return r
}

// shape chooses a shape of rank lo..hi with dimensions 1..maxDim and at most
// maxEl elements.
func shape(name string, lo, hi, maxDim, maxEl int) []int {
	r := lo + vh.Choose(name+".rank", hi-lo+1)
	sh := make([]int, r)
	n := 1
	for i := range sh {
		m := maxDim
		if maxEl/n < m {
			m = maxEl / n
		}
		sh[i] = 1 + vh.Choose(name+".dim", m)
		n *= sh[i]
	}
	return sh
}

// arr is an array of arbitrary finite numbers.
func arr(name string, sh []int) A {
	a := newA(sh)
	for i := range a.d {
		a.d[i] = vh.Float(name)
	}
	return a
}

func arrIn(name string, sh []int, lo, hi float64) A {
	a := newA(sh)
	for i := range a.d {
		a.d[i] = vh.FloatIn(name, lo, hi)
	}
	return a
}

func conf(track bool) *tensor.Config {
	return &tensor.Config{Device: tensor.CPU, GradTrack: track}
}

// mk builds a leaf tensor from an array.
func mk(a A, track bool) tensor.Tensor {
	var t tensor.Tensor
	var err error
	s := a.sh
	switch len(s) {
	case 0:
		t, err = tensor.TensorOf(a.d[0], conf(track))
	case 1:
		t, err = tensor.TensorOf(append([]float64{}, a.d...), conf(track))
	case 2:
		d := make([][]float64, s[0])
		for i := range d {
			d[i] = append([]float64{}, a.d[i*s[1]:(i+1)*s[1]]...)
		}
		t, err = tensor.TensorOf(d, conf(track))
	case 3:
		d := make([][][]float64, s[0])
		for i := range d {
			d[i] = make([][]float64, s[1])
			for j := range d[i] {
				k := (i*s[1] + j) * s[2]
				d[i][j] = append([]float64{}, a.d[k:k+s[2]]...)
			}
		}
		t, err = tensor.TensorOf(d, conf(track))
	case 4:
		d := make([][][][]float64, s[0])
		for i := range d {
			d[i] = make([][][]float64, s[1])
			for j := range d[i] {
				d[i][j] = make([][]float64, s[2])
				for l := range d[i][j] {
					k := ((i*s[1]+j)*s[2] + l) * s[3]
					d[i][j][l] = append([]float64{}, a.d[k:k+s[3]]...)
				}
			}
		}
		t, err = tensor.TensorOf(d, conf(track))
	default:
		var f tensor.Tensor
		f, err = tensor.TensorOf(append([]float64{}, a.d...), conf(false))
		if err == nil {
			t, err = f.Reshape(cp(s))
		}
		if err == nil {
			t.ResetGradContext(track)
		}
	}
	if err != nil {
		vh.Assert(false, "constructing an operand failed")
		panic("mk")
	}
	return t
}

func sameShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// read takes the elements of a tensor through Shape and At.
func read(t tensor.Tensor) A {
	a := newA(t.Shape())
	for i := range a.d {
		v, err := t.At(idx(a.sh, i)...)
		if err != nil {
			vh.Assert(false, "At failed inside the shape")
			panic("read")
		}
		a.d[i] = v
	}
	return a
}

// eqT states that a tensor has the given shape and elements.
func eqT(t tensor.Tensor, want A, label string) {
	if t == nil {
		vh.Assert(false, label+": nil tensor")
		return
	}
	if !sameShape(t.Shape(), want.sh) {
		vh.Assert(false, label+": shape")
		return
	}
	got := read(t)
	for i := range got.d {
		vh.Eq(got.d[i], want.d[i], label)
	}
}

// good states that a call succeeded with a result.
func good(t tensor.Tensor, err error, label string) bool {
	vh.Assert(err == nil, label+": error")
	if err != nil {
		return false
	}
	vh.Assert(t != nil, label+": no result")
	return t != nil
}

// bad states that a call was rejected without a result.
func bad(t tensor.Tensor, err error, label string) {
	vh.Assert(err != nil, label+": accepted")
	vh.Assert(t == nil, label+": result despite error")
}

// bcShape is the right-aligned broadcast of two shapes.
func bcShape(a, b []int) ([]int, bool) {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]int, n)
	for k := 1; k <= n; k++ {
		x, y := 1, 1
		if k <= len(a) {
			x = a[len(a)-k]
		}
		if k <= len(b) {
			y = b[len(b)-k]
		}
		switch {
		case x == y || y == 1:
			r[n-k] = x
		case x == 1:
			r[n-k] = y
		default:
			return nil, false
		}
	}
	return r, true
}

// bcIdx maps an index of the broadcast shape to one of the source shape.
func bcIdx(src []int, ix []int) []int {
	r := make([]int, len(src))
	off := len(ix) - len(src)
	for i := range src {
		if src[i] != 1 {
			r[i] = ix[off+i]
		}
	}
	return r
}

func bcTo(a A, sh []int) A {
	r := newA(sh)
	for i := range r.d {
		r.d[i] = a.at(bcIdx(a.sh, idx(sh, i)))
	}
	return r
}

// unbc sums g (of a broadcast shape) back onto the source shape.
func unbc(g A, src []int) A {
	r := newA(src)
	for i := range g.d {
		k := flat(src, bcIdx(src, idx(g.sh, i)))
		r.d[k] += g.d[i]
	}
	return r
}

// bcPair chooses two broadcast-compatible shapes.
func bcPair(name string, maxRank, maxDim, maxEl int) ([]int, []int, []int) {
	out := shape(name, 0, maxRank, maxDim, maxEl)
	a, b := cp(out), cp(out)
	// drop leading dimensions or shrink dimensions to one, in either operand
	switch vh.Choose(name+".drop", 3) {
	case 1:
		a = a[vh.Choose(name+".dropA", len(out)+1):]
	case 2:
		b = b[vh.Choose(name+".dropB", len(out)+1):]
	}
	for k := 1; k <= len(out); k++ {
		if out[len(out)-k] == 1 {
			continue
		}
		ia, ib := len(a)-k, len(b)-k
		n := 1
		if ia >= 0 && ib >= 0 {
			n = 3
		}
		switch vh.Choose(name+".one", n) {
		case 1:
			a[ia] = 1
		case 2:
			b[ib] = 1
		}
	}
	r, ok := bcShape(a, b)
	if !ok {
		panic("bcPair")
	}
	return a, b, r
}

func el2(a, b A, f func(x, y float64) float64) A {
	sh, ok := bcShape(a.sh, b.sh)
	if !ok {
		panic("el2")
	}
	r := newA(sh)
	for i := range r.d {
		ix := idx(sh, i)
		r.d[i] = f(a.at(bcIdx(a.sh, ix)), b.at(bcIdx(b.sh, ix)))
	}
	return r
}

func without(sh []int, dim int) []int {
	return append(cp(sh[:dim]), sh[dim+1:]...)
}

// fibre lists the elements of a along dim at the position ix of the reduced shape.
func fibre(a A, dim int, ix []int) []float64 {
	r := make([]float64, a.sh[dim])
	for k := range r {
		full := append(append(cp(ix[:dim]), k), ix[dim:]...)
		r[k] = a.at(full)
	}
	return r
}

func sumOf(v []float64) float64 {
	s := 0.
	for _, x := range v {
		s += x
	}
	return s
}

func meanOf(v []float64) float64 { return sumOf(v) / float64(len(v)) }

func varOf(v []float64) float64 {
	if len(v) < 2 {
		return 0
	}
	m := meanOf(v)
	s := 0.
	for _, x := range v {
		s += (x - m) * (x - m)
	}
	return s / float64(len(v)-1)
}

func absf(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

func maxf(x, y float64) float64 {
	if x > y {
		return x
	}
	return y
}

func minf(x, y float64) float64 {
	if x < y {
		return x
	}
	return y
}

func isFinite(x float64) bool { return vh.Finite(x) }

var _ = math.Pi

// pick returns q in the quick tier and t in the thorough tier.
func pick(q, t int) int {
	if vh.Thorough() {
		return t
	}
	return q
}

// gradA reads the gradient of t, asserting that it exists with t's shape.
func gradA(t tensor.Tensor, label string) (A, bool) {
	g := t.Gradient()
	vh.Assert(g != nil, label+": missing")
	if g == nil {
		return A{}, false
	}
	ok := sameShape(g.Shape(), t.Shape())
	vh.Assert(ok, label+": shape")
	if !ok {
		return A{}, false
	}
	a := read(g)
	for i := range a.d {
		vh.Assert(vh.Finite(a.d[i]), label+": finite")
	}
	return a, true
}

// gradIs states the gradient of t.
func gradIs(t tensor.Tensor, want A, label string) {
	g, ok := gradA(t, label)
	if !ok {
		return
	}
	if len(g.d) != len(want.d) {
		vh.Assert(false, label+": shape")
		return
	}
	for i := range g.d {
		vh.Eq(g.d[i], want.d[i], label)
	}
}

// gradD states that the gradient of t is the derivative of total with respect
// to the inputs x that t was built from.
func gradD(t tensor.Tensor, x A, total float64, label string) {
	g, ok := gradA(t, label)
	if !ok {
		return
	}
	for i := range g.d {
		vh.Eq(g.d[i], vh.Deriv(total, x.d[i]), label)
	}
}

// gradJ states that the gradient of t is the upstream u times the derivative of
// the elements y with respect to the inputs x that t was built from.
func gradJ(t tensor.Tensor, x, y, u A, label string) {
	g, ok := gradA(t, label)
	if !ok {
		return
	}
	for i := range g.d {
		s := 0.
		for j := range y.d {
			s += u.d[j] * vh.Deriv(y.d[j], x.d[i])
		}
		vh.Eq(g.d[i], s, label)
	}
}

func noGrad(t tensor.Tensor, label string) {
	vh.Assert(t.Gradient() == nil, label+": unexpected gradient")
}

func dotSum(a, b A) float64 {
	s := 0.
	for i := range a.d {
		s += a.d[i] * b.d[i]
	}
	return s
}

// bp back-propagates and states success.
func bp(t tensor.Tensor, label string) bool {
	err := tensor.BackPropagate(t)
	vh.Assert(err == nil, label+": back-propagation failed")
	return err == nil
}

// vjp runs one operation on leaves built from xs, weights its result by an
// arbitrary upstream and compares the gradients with the derivative.
func vjp(label string, xs []A, f func(ts []tensor.Tensor) (tensor.Tensor, error)) {
	n := len(xs)
	mask := 1 + vh.Choose("tracked", 1<<n-1)
	ts := make([]tensor.Tensor, n)
	for i := range xs {
		ts[i] = mk(xs[i], mask>>i&1 == 1)
	}
	vjpOn(label, xs, ts, mask, f)
}

func vjpOn(label string, xs []A, ts []tensor.Tensor, mask int, f func(ts []tensor.Tensor) (tensor.Tensor, error)) {
	y, err := f(ts)
	if !good(y, err, label) {
		return
	}
	ya := read(y)
	g := arr("g", ya.sh)
	z, err := y.Mul(mk(g, false))
	if !good(z, err, label) || !bp(z, label) {
		return
	}
	total := dotSum(ya, g)
	for i := range xs {
		if mask>>i&1 == 1 {
			gradD(ts[i], xs[i], total, label)
		} else {
			noGrad(ts[i], label)
		}
	}
	gradIs(y, g, label+": result")
}

func rng(f, t int) tensor.Range { return tensor.Range{From: f, To: t} }

// rangesFor chooses an index for a tensor of shape sh: fewer ranges than
// dimensions, whole-dimension ranges and every explicit block.
func rangesFor(name string, sh []int) []tensor.Range {
	n := vh.Choose(name+".n", len(sh)+1)
	r := make([]tensor.Range, n)
	for i := range r {
		k := vh.Choose(name+".r", 1+sh[i]*(sh[i]+1)/2)
		if k == 0 {
			continue
		}
		k--
		for from := 0; from < sh[i]; from++ {
			if k < sh[i]-from {
				r[i] = rng(from, from+1+k)
				break
			}
			k -= sh[i] - from
		}
	}
	return r
}

// complete gives the block a (valid) index selects in a tensor of shape sh.
func complete(r []tensor.Range, sh []int) []tensor.Range {
	o := make([]tensor.Range, len(sh))
	for i := range sh {
		o[i] = rng(0, sh[i])
		if i < len(r) && !(r[i].From == 0 && r[i].To == 0) {
			o[i] = r[i]
		}
	}
	return o
}

// rngs builds a list of ranges from pairs of bounds.
func rngs(b ...int) []tensor.Range {
	var r []tensor.Range
	for i := 0; i < len(b); i += 2 {
		r = append(r, rng(b[i], b[i+1]))
	}
	return r
}
