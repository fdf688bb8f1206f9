package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C14: the value of an activation; C15: its gradient.

const (
	aRelu = iota
	aLeakyNil
	aLeakyM
	aSigmoid
	aTanh
	aSoftmax
	aSoftmaxNil
)

var actName = []string{"Relu", "LeakyRelu nil", "LeakyRelu", "Sigmoid", "Tanh", "Softmax", "Softmax nil"}

// actOf builds an activation.
func actOf(k int, m float64, dim int) forwarder {
	switch k {
	case aRelu:
		if vh.Choose("zero value", 2) == 1 {
			return &activations.Relu{}
		}
		return activations.NewRelu()
	case aLeakyNil:
		return activations.NewLeakyRelu(nil)
	case aLeakyM:
		return activations.NewLeakyRelu(&activations.LeakyReluConfig{M: m})
	case aSigmoid:
		return activations.NewSigmoid()
	case aTanh:
		return activations.NewTanh()
	}
	var conf *activations.SoftmaxConfig
	if k == aSoftmax {
		conf = &activations.SoftmaxConfig{Dim: dim}
	}
	s, err := activations.NewSoftmax(conf)
	vh.Assert(err == nil && s != nil, "NewSoftmax")
	if conf != nil {
		conf.Dim = 9 // the caller's to change
	}
	return s
}

// sigmoidOf is 1/(1+e^-v) without an exponential that overflows.
func sigmoidOf(v float64) float64 {
	if v < 0 {
		e := math.Exp(v)
		return e / (1 + e)
	}
	return 1 / (1 + math.Exp(-v))
}

// actWant is the definition.
func actWant(k int, x A, m float64, dim int) A {
	r := newA(x.sh)
	for i, v := range x.d {
		switch k {
		case aRelu:
			r.d[i] = maxf(0, v)
		case aLeakyNil:
			r.d[i] = maxf(0, v) + 0.01*minf(0, v)
		case aLeakyM:
			r.d[i] = maxf(0, v) + m*minf(0, v)
		case aSigmoid:
			r.d[i] = sigmoidOf(v)
		case aTanh:
			r.d[i] = math.Tanh(v)
		default:
			ix := idx(x.sh, i)
			f := fibre(x, dim, without(ix, dim))
			s := 0.
			for _, u := range f {
				s += math.Exp(u)
			}
			r.d[i] = math.Exp(v) / s
		}
	}
	return r
}

func actIs(y T, k int, x A, m float64, dim int, label string) {
	w := actWant(k, x, m, dim)
	eqT(y, w, label)
	if k < aSoftmax || !sameShape(y.Shape(), x.sh) {
		return
	}
	a := read(y)
	for i := range a.d {
		vh.Assert(a.d[i] >= 0, label+": non-negative")
	}
	rs := without(x.sh, dim)
	for i := 0; i < prod(rs); i++ {
		vh.Eq(sumOf(fibre(a, dim, idx(rs, i))), 1, label+": sums to 1")
	}
}

func actCase(k int, sh []int) (m float64, dim int) {
	if k == aLeakyM {
		m = vh.Float("m")
	}
	if k == aSoftmax {
		dim = vh.Choose("softmax dim", len(sh))
	}
	return m, dim
}

func actRange(k int, name string, sh []int) A {
	if k < aSoftmax {
		return arr(name, sh)
	}
	return arrIn(name, sh, -700, 700)
}

func runAct(k int, sh []int, x A, m float64, dim int, t T, label string) T {
	y, err := actOf(k, m, dim).Forward(t)
	if !good(y, err, label) {
		return nil
	}
	actIs(y, k, x, m, dim, label)
	return y
}

// element-wise activations and Softmax, every small shape and every value
func C14_value() {
	k := vh.Choose("act", 7)
	lo := 0
	if k >= aSoftmax {
		lo = 1
	}
	sh := shape("x", lo, 3, 3, pick(3, 4))
	m, dim := actCase(k, sh)
	x := actRange(k, "x", sh)
	t := operandOf("x", x, 4)
	runAct(k, sh, x, m, dim, t, actName[k])
	eqT(t, x, actName[k]+": input")
}

// spaced gives element i a value within 0.2 of a fixed, shuffled grid point, so
// that the order of the elements is fixed and nothing else.
func spaced(name string, sh []int, step float64) A { return spacedAt(name, sh, step, 0) }

func spacedAt(name string, sh []int, step, center float64) A {
	r := newA(sh)
	n := len(r.d)
	for i := range r.d {
		c := (float64((i*7919+3)%n)-float64(n)/2+0.25)*step + center
		r.d[i] = vh.FloatIn(name, c-0.2*step, c+0.2*step)
	}
	return r
}

var rank5 = [][]int{
	{}, {1}, {4}, {1, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {2, 1, 3}, {3, 2, 2}, {1, 3, 1}, {2, 2, 3},
	{2, 3, 1, 2}, {1, 2, 2, 3}, {3, 1, 2, 2}, {2, 2, 1, 1, 2}, {1, 2, 3, 1, 2}, {2, 1, 2, 3, 1}, {1, 1, 1, 1, 1}, {3, 1, 1, 1, 2},
}

// every rank up to 5 and every Softmax dimension
func C14_rank() {
	k := vh.Choose("act", 7)
	sh := rank5[vh.Choose("shape", len(rank5))]
	if k >= aSoftmax && len(sh) == 0 {
		return
	}
	m, dim := actCase(k, sh)
	x := spaced("x", sh, 0.5)
	t := operandOf("x", x, 2)
	runAct(k, sh, x, m, dim, t, actName[k]+" rank")
}

// sizes that a special case would single out
func C14_large() {
	k := vh.Choose("act", 7)
	sh := [][]int{{32}, {100}, {257}, {16, 16}, {64, 3}, {3, 64}, {128, 2}, {1, 100}, {10, 2, 10}, {5, 4, 3, 2}, {33, 33}}[vh.Choose("shape", 11)]
	m, dim := actCase(k, sh)
	x := spaced("x", sh, 0.02)
	runAct(k, sh, x, m, dim, mk(x, true), actName[k]+" large")
}

// exact special values; the float behaviour is checked by the native replay
func C14_exact() {
	k := vh.Choose("act", 7)
	vs := []float64{0, math.Copysign(0, -1), 1, -1, 5e-324, -5e-324, 1e-12, 1e3, -1e3, 710, -710, 709, -709, 36, -38, 1e308, -1e308, math.MaxFloat64, -math.MaxFloat64}
	n := len(vs)
	if k >= aSoftmax {
		vs = []float64{0, math.Copysign(0, -1), 1, -1, 36, -37, 350, -350, 400, -400, 700, -700, 1e-300, 699}
		n = len(vs)
	}
	sh := []int{2}
	m := 0.
	if k == aLeakyM {
		m = []float64{0, 1, -1, 0.2, 3, -0.01, 1e-3}[vh.Choose("m", 7)]
	}
	i := vh.Choose("i", n)
	x := A{sh, []float64{vs[i], vs[vh.Choose("j", n)]}}
	runAct(k, sh, x, m, 0, mk(x, false), actName[k]+" exact")
}

// one object, many inputs; two objects, two dimensions
func C14_reuse() {
	k := vh.Choose("act", 7)
	lo := 0
	if k >= aSoftmax {
		lo = 1
	}
	m := 0.
	if k == aLeakyM {
		m = vh.Float("m")
	}
	f := actOf(k, m, 0)
	for i := 0; i < 3; i++ {
		x := spaced("x", [][]int{{3}, {2, 2}, {2, 1, 2}}[(i+lo)%3], 0.5)
		t := mk(x, i == 1)
		y, err := f.Forward(t)
		if !good(y, err, "reuse") {
			return
		}
		actIs(y, k, x, m, 0, "reuse")
		if i == 1 {
			bp(y, "reuse")
			actIs(y, k, x, m, 0, "reuse: after back-propagation")
		}
		bad2(f)
	}
	if k == aSoftmax {
		x := spaced("x", []int{2, 3}, 0.5)
		g := actOf(k, 0, 1)
		for d, a := range []forwarder{f, g, f} {
			y, err := a.Forward(mk(x, true))
			if good(y, err, "reuse") {
				actIs(y, k, x, 0, d%2, "reuse")
			}
		}
	}
}

func bad2(f forwarder) {
	y, err := f.Forward(nil)
	bad(y, err, "activation of nil")
}

// a Softmax of any rank below the dimension is rejected, of any above taken
func C14_softmax_dim() {
	sh := shape("x", 0, 4, 2, 4)
	d := vh.Choose("d", 6)
	x := spaced("x", sh, 0.5)
	y, err := actOf(aSoftmax, 0, d).Forward(mk(x, false))
	if d >= len(sh) {
		bad(y, err, "Softmax dimension")
		return
	}
	if good(y, err, "Softmax dimension") {
		actIs(y, aSoftmax, x, 0, d, "Softmax dimension")
	}
}

/* C15 */

// actGrad states that t, the input of an activation with elements x, has the
// gradient the upstream g gives it. extra is added to it.
func actGrad(t T, k int, x, g A, m float64, dim int, extra A, label string) {
	r, ok := gradA(t, label)
	if !ok {
		return
	}
	u := actVJP(k, x, g, m, dim)
	if k == aLeakyNil {
		m = 0.01
	}
	if k == aRelu {
		m = 0
	}
	for i, v := range x.d {
		e := 0.
		if extra.d != nil {
			e = extra.d[i]
		}
		if k >= aSigmoid || v != 0 {
			vh.Eq(r.d[i], u.d[i]+e, label)
			continue
		}
		a, b := r.d[i]-e-g.d[i], r.d[i]-e-m*g.d[i]
		vh.Assert(a*b <= 0, label+": at zero")
	}
}

// actVJP is the upstream g times the derivative of the activation at x, which
// is not zero where the activation has a kink there.
func actVJP(k int, x, g A, m float64, dim int) A {
	p := actWant(k, x, m, dim)
	if k == aLeakyNil {
		m = 0.01
	}
	if k == aRelu {
		m = 0
	}
	r := newA(x.sh)
	for i, v := range x.d {
		switch k {
		case aSigmoid:
			r.d[i] = g.d[i] * p.d[i] * (1 - p.d[i])
		case aTanh:
			r.d[i] = g.d[i] * (1 - p.d[i]*p.d[i])
		case aSoftmax, aSoftmaxNil:
			rx := without(idx(x.sh, i), dim)
			s := dotSum(A{d: fibre(p, dim, rx)}, A{d: fibre(g, dim, rx)})
			r.d[i] = p.d[i] * (g.d[i] - s)
		default:
			if v < 0 {
				r.d[i] = m * g.d[i]
			} else {
				r.d[i] = g.d[i]
			}
		}
	}
	return r
}

// away keeps inputs from being closer to zero than the equality tolerance of
// the library without being zero.
func away(k int, x A) {
	if k >= aSigmoid {
		return
	}
	for i := range x.d {
		switch vh.Choose("sign", 3) {
		case 0:
			vh.Assume(x.d[i] > 1e-200)
		case 1:
			vh.Assume(x.d[i] < -1e-200)
		case 2:
			x.d[i] = 0
		}
	}
}

// weighted back-propagates the sum of y weighted by g.
func weighted(y T, g A, label string) bool {
	z, err := y.Mul(mk(g, false))
	return good(z, err, label) && bp(z, label)
}

// every value, every small shape, tracked leaf
func C15_leaf() {
	k := vh.Choose("act", 7)
	lo := 0
	if k >= aSoftmax {
		lo = 1
	}
	sh := shape("x", lo, 3, 3, pick(3, 4))
	m, dim := actCase(k, sh)
	x := actRange(k, "x", sh)
	away(k, x)
	if k >= aSoftmax {
		// wider spreads underflow; C15_exact has some
		for i := range x.d {
			for j := range x.d {
				vh.Assume(x.d[i]-x.d[j] <= 745)
			}
		}
	}
	t := mk(x, true)
	y := runAct(k, sh, x, m, dim, t, actName[k])
	if y == nil {
		return
	}
	g := arrIn("g", sh, -1e6, 1e6)
	if weighted(y, g, actName[k]) {
		actGrad(t, k, x, g, m, dim, A{}, actName[k])
		gradIs(y, g, actName[k]+": result")
	}
}

// untracked inputs receive nothing
func C15_untracked() {
	k := vh.Choose("act", 7)
	x := spaced("x", []int{2, 2}, 0.5)
	t := mk(x, false)
	m, dim := actCase(k, x.sh)
	if y := runAct(k, x.sh, x, m, dim, t, actName[k]); y != nil && bp(y, actName[k]) {
		noGrad(t, actName[k])
		noGrad(y, actName[k])
	}
}

func C15_rank() {
	k := vh.Choose("act", 7)
	sh := rank5[vh.Choose("shape", len(rank5))]
	if k >= aSoftmax && len(sh) == 0 {
		return
	}
	m, dim := actCase(k, sh)
	x := spaced("x", sh, 0.5)
	t := mk(x, true)
	g := arr("g", sh)
	if y := runAct(k, sh, x, m, dim, t, actName[k]+" rank"); y != nil && weighted(y, g, actName[k]) {
		actGrad(t, k, x, g, m, dim, A{}, actName[k]+" rank")
	}
}

func C15_large() {
	k := vh.Choose("act", 7)
	sh := [][]int{{33}, {65}, {16, 4}, {3, 24}, {24, 3}, {8, 2, 4}, {130}, {2, 130}, {130, 2}}[vh.Choose("shape", 9)]
	m, dim := actCase(k, sh)
	x := spaced("x", sh, 0.05)
	t := mk(x, true)
	g := spaced("g", sh, 0.1)
	if y := runAct(k, sh, x, m, dim, t, actName[k]+" large"); y != nil && weighted(y, g, actName[k]) {
		actGrad(t, k, x, g, m, dim, A{}, actName[k]+" large")
	}
}

// exact values, including the extremes, with upstreams of several sizes; the
// float behaviour is checked by the native replay
func C15_exact() {
	k := vh.Choose("act", 7)
	vs := []float64{0, math.Copysign(0, -1), 1, -1, 1e-100, -1e-100, 350, -350, 400, -400, 700, -700, 30, -30}
	m := 0.
	if k == aLeakyM {
		m = []float64{0, 1, -1, 0.2, 3}[vh.Choose("m", 5)]
	}
	x := A{[]int{2}, []float64{vs[vh.Choose("i", len(vs))], vs[vh.Choose("j", len(vs))]}}
	g := A{[]int{2}, [][]float64{{1, 2}, {1e6, -3}, {0, 1}, {-1e-3, 1e5}}[vh.Choose("g", 4)]}
	t := mk(x, true)
	if y := runAct(k, x.sh, x, m, 0, t, actName[k]+" exact"); y != nil && weighted(y, g, actName[k]) {
		actGrad(t, k, x, g, m, 0, A{}, actName[k]+" exact")
	}
}

// chainAny builds a tensor of shape sh out of leaves.
func chainAny(c int, sh []int) (p T, xs []T, as []A, err error) {
	leaf := func(name string, s []int) T {
		a := spaced(name, s, 0.5)
		t := mk(a, true)
		as, xs = append(as, a), append(xs, t)
		return t
	}
	switch c {
	case 0:
		p = leaf("x", sh).Scale(-1.5)
	case 1:
		x, y := leaf("x", sh), leaf("y", []int{1})
		p, err = x.Mul(y)
	case 2:
		x := leaf("x", []int{prod(sh) + 2})
		if p, err = x.Slice(rngs(1, prod(sh)+1)); err == nil {
			p, err = p.Reshape(sh)
		}
	case 3: // the same leaf twice
		x := leaf("x", sh)
		p, err = x.Add(x.Pow(2))
	case 4:
		p, err = leaf("x", append([]int{2}, sh...)).SumAlong(0)
	case 5: // the same intermediate twice
		x := leaf("x", sh).Scale(0.5)
		p, err = x.Sin().Sub(x)
	}
	return
}

func C15_chain() {
	k := vh.Choose("act", 7)
	sh := [][]int{{2}, {2, 2}, {1, 3}, {2, 1, 2}}[vh.Choose("shape", 4)]
	m, dim := actCase(k, sh)
	p, xs, as, err := chainAny(vh.Choose("chain", 6), sh)
	if !good(p, err, "chain") {
		return
	}
	pa := read(p)
	for i := range pa.d {
		if k < aSigmoid {
			// keep clear of the kink
			if vh.Choose("sign", 2) == 1 {
				vh.Assume(pa.d[i] > 0.001)
			} else {
				vh.Assume(pa.d[i] < -0.001)
			}
		}
	}
	y := runAct(k, sh, pa, m, dim, p, "chain")
	if y == nil {
		return
	}
	g := spaced("g", sh, 1)
	if !weighted(y, g, "chain") {
		return
	}
	u := actVJP(k, pa, g, m, dim)
	actGrad(p, k, pa, g, m, dim, A{}, "chain: activation input")
	for i := range xs {
		gradJ(xs[i], as[i], pa, u, "chain: leaf")
	}
}

// the activation's input and its result used elsewhere as well
func C15_shared() {
	k := vh.Choose("act", 7)
	sh := []int{2, 2}
	m, dim := actCase(k, sh)
	x := spaced("x", sh, 0.5)
	g, h := arr("g", sh), arr("h", sh)
	t := mk(x, true)
	in := t
	if vh.Choose("mid", 2) == 1 {
		in = t.Scale(1)
	}
	early := vh.Choose("early", 2) == 1
	var side T
	var err error
	if early {
		side, err = in.Mul(mk(h, false))
	}
	y := runAct(k, sh, x, m, dim, in, "shared")
	if y == nil {
		return
	}
	if !early {
		side, err = in.Mul(mk(h, false))
	}
	if !good(side, err, "shared") {
		return
	}
	main, err := y.Mul(mk(g, false))
	if !good(main, err, "shared") {
		return
	}
	w := g
	if vh.Choose("twice", 2) == 1 {
		if main, err = main.Add(y); !good(main, err, "shared") {
			return
		}
		w = g.mapf(func(v float64) float64 { return v + 1 })
	}
	z, err := main.Add(side)
	if good(z, err, "shared") && bp(z, "shared") {
		actGrad(in, k, x, w, m, dim, h, "shared")
		actGrad(t, k, x, w, m, dim, h, "shared: leaf")
	}
}

// one activation on top of another
func C15_stack() {
	k, l := vh.Choose("first", 7), vh.Choose("second", 7)
	sh := []int{2, 2}
	m, dim := 0.3, 0
	if k == aSoftmax {
		dim = vh.Choose("dim", 2)
	}
	x := spaced("x", sh, 0.7)
	t := mk(x, true)
	y := runAct(k, sh, x, m, dim, t, "stack")
	if y == nil {
		return
	}
	ya := read(y)
	if l < aSigmoid {
		for i := range ya.d {
			if ya.d[i] == 0 {
				return
			}
		}
	}
	z, err := actOf(l, m, 1).Forward(y)
	if !good(z, err, "stack") {
		return
	}
	g := spaced("g", sh, 1)
	if weighted(z, g, "stack") {
		dl := 0
		if l == aSoftmax {
			dl = 1
		}
		actGrad(y, l, ya, g, m, dl, A{}, "stack: between")
		gradJ(t, x, ya, actVJP(l, ya, g, m, dl), "stack: leaf")
	}
}

// two back-propagations over one leaf add up
func C15_accumulate() {
	k := vh.Choose("act", 7)
	sh := []int{2}
	m, dim := actCase(k, sh)
	x := spaced("x", sh, 0.5)
	t := mk(x, true)
	f := actOf(k, m, dim)
	g, h := arr("g", sh), arr("h", sh)
	a, err := f.Forward(t)
	if !good(a, err, "accumulate") {
		return
	}
	b, err := f.Forward(t)
	if !good(b, err, "accumulate") {
		return
	}
	if weighted(a, g, "accumulate") && weighted(b, h, "accumulate") {
		actGrad(t, k, x, el2(g, h, func(p, q float64) float64 { return p + q }), m, dim, A{}, "accumulate")
	}
}

// one activation over inputs of any two shapes: values (C14) and derivatives
// (C15) are those of a fresh object
func actSequence(grad bool) {
	k := vh.Choose("act", 7)
	shs := [][]int{{1}, {2}, {3}, {2, 2}, {1, 3}, {3, 1}, {2, 1, 2}}
	m, dim := 0., 0
	if k == aLeakyM {
		m = vh.Float("m")
	}
	if k == aSoftmax {
		dim = vh.Choose("dim", 2)
	}
	f := actOf(k, m, dim)
	var ts []T
	var xa, ga []A
	n := pick(2, 3)
	for i := 0; i < n; i++ {
		sh := shs[vh.Choose("sh", len(shs))]
		vh.Assume(dim < len(sh))
		x := spaced("x", sh, 0.5)
		t := mk(x, grad || vh.Choose("track", 2) == 1)
		y, err := f.Forward(t)
		if !good(y, err, "sequence") {
			return
		}
		actIs(y, k, x, m, dim, "sequence")
		if grad {
			g := arr("g", sh)
			if !weighted(y, g, "sequence") {
				return
			}
			ts, xa, ga = append(ts, t), append(xa, x), append(ga, g)
		}
	}
	for i, t := range ts {
		actGrad(t, k, xa[i], ga[i], m, dim, A{}, "sequence")
	}
}

func C14_sequence() { actSequence(false) }
func C15_sequence() { actSequence(true) }
