package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C12: the value of a loss; C13: its gradient.

const clipEps = 1e-12

func clampf(x, lo, hi float64) float64 {
	if x > hi {
		x = hi
	}
	if x < lo {
		x = lo
	}
	return x
}

// lossWant is the definition.
func lossWant(k int, p, t A) float64 {
	s := 0.
	for i := range p.d {
		switch k {
		case 0:
			s += (p.d[i] - t.d[i]) * (p.d[i] - t.d[i])
		case 1:
			y, q := clampf(t.d[i], 0, 1), clampf(p.d[i], clipEps, 1-clipEps)
			s -= y*math.Log(q) + (1-y)*math.Log(1-q)
		case 2:
			y, q := clampf(t.d[i], 0, 1), clampf(p.d[i], clipEps, 1-clipEps)
			s -= y * math.Log(q)
		}
	}
	return s / float64(p.sh[0])
}

func compute(k int, p, t T) (T, error) {
	switch k {
	case 0:
		return losses.NewMSE().Compute(p, t)
	case 1:
		return losses.NewBCE().Compute(p, t)
	}
	return losses.NewCE().Compute(p, t)
}

func lossIs(l T, k int, p, t A, label string) {
	eqT(l, A{[]int{}, []float64{lossWant(k, p, t)}}, label)
	v, err := l.At()
	vh.Assert(err == nil, label+": At")
	vh.Assert(vh.Finite(v), label+": finite")
	vh.Assert(v >= 0, label+": non-negative")
}

func lossShape(k, n int) []int {
	if k < 2 {
		return []int{1 + vh.Choose("n", n)}
	}
	b := 1 + vh.Choose("batch", n)
	c := 1 + vh.Choose("class", n)
	if b*c > n+1 {
		vh.Assume(false)
	}
	return []int{b, c}
}

// operandOf builds the tensor in one of several provenances.
func operandOf(name string, a A, n int) T {
	switch vh.Choose(name+".from", n) {
	case 1:
		return mk(a, true)
	case 2:
		return mk(a, true).Scale(1)
	case 3:
		t := mk(a, true)
		bp(t, name)
		return t
	}
	return mk(a, false)
}

var lossName = []string{"MSE", "BCE", "CE"}

// all values, any tracking
func C12_value() {
	k := vh.Choose("loss", 3)
	sh := lossShape(k, pick(2, 3))
	p, t := arrIn("p", sh, -1e6, 1e6), arrIn("t", sh, -1e6, 1e6)
	l, err := compute(k, operandOf("p", p, 4), operandOf("t", t, 2))
	if good(l, err, lossName[k]) {
		lossIs(l, k, p, t, lossName[k])
	}
}

// more elements, values strictly inside the clipping interval
func C12_inside() {
	k := vh.Choose("loss", 3)
	var sh []int
	if k < 2 {
		sh = []int{1 + vh.Choose("n", pick(12, 24))}
	} else {
		sh = []int{1 + vh.Choose("batch", pick(5, 8)), 1 + vh.Choose("class", pick(5, 8))}
	}
	p, t := arrIn("p", sh, 0.001, 0.999), arrIn("t", sh, 0.001, 0.999)
	l, err := compute(k, operandOf("p", p, 2), mk(t, false))
	if good(l, err, lossName[k]) {
		lossIs(l, k, p, t, lossName[k])
	}
}

// sizes that a special case would single out
func C12_large() {
	k := vh.Choose("loss", 3)
	n := []int{16, 31, 64, 100, 129, 256}[vh.Choose("n", 6)]
	sh := []int{n}
	if k == 2 {
		c := []int{1, 2, 10, n}[vh.Choose("c", 4)]
		if c == n && n > 64 {
			return
		}
		sh = []int{n, c}
		if vh.Choose("flip", 2) == 1 {
			sh = []int{c, n}
		}
	}
	p, t := arrIn("p", sh, 0.02, 0.98), arrIn("t", sh, 0.02, 0.98)
	l, err := compute(k, mk(p, true), mk(t, false))
	if good(l, err, lossName[k]) {
		lossIs(l, k, p, t, lossName[k])
	}
}

// exact and nearly exact clipping bounds next to an arbitrary element
func C12_bounds_exact() {
	k := vh.Choose("loss", 3)
	vs := []float64{0, math.Copysign(0, -1), 1, -1, 2, 1e6, -1e6, clipEps, 1 - clipEps, 5e-13, 2e-12, 1 - 5e-13, 1 - 2e-12, 0.5, 1e-300, -1e-300, 1e-15}
	ts := []float64{0, 1, 0.25, -3, 7, 1e6, 1e-12, 1 - 1e-12, 1e-300}
	sh := []int{1 + vh.Choose("n", 2)}
	if k == 2 {
		sh = [][]int{{1, 2}, {2, 1}}[vh.Choose("s", 2)]
	}
	p, t := arrIn("p", sh, 0.1, 0.9), arrIn("t", sh, 0.1, 0.9)
	p.d[0] = vs[vh.Choose("p", len(vs))]
	t.d[0] = ts[vh.Choose("t", len(ts))]
	l, err := compute(k, mk(p, vh.Choose("track", 2) == 1), mk(t, false))
	if good(l, err, lossName[k]) {
		lossIs(l, k, p, t, lossName[k])
	}
}

// values that are close to each other but far from zero
func C12_offset_exact() {
	n := 1 + vh.Choose("n", pick(3, 6))
	base := []float64{1e8, -1e8, 1e6}[vh.Choose("base", 3)]
	p, t := arrIn("p", []int{n}, base, base+4), arrIn("t", []int{n}, base, base+4)
	l, err := compute(0, operandOf("p", p, 2), mk(t, false))
	if good(l, err, lossName[0]) {
		lossIs(l, 0, p, t, lossName[0])
	}
}

// within a band around each bound
func C12_band() {
	k := 1 + vh.Choose("loss", 2)
	sh := []int{1}
	if k == 2 {
		sh = []int{1, 1}
	}
	var p A
	if vh.Choose("side", 2) == 0 {
		p = arrIn("p", sh, -1e-11, 1e-11)
	} else {
		p = arrIn("p", sh, 1-1e-11, 1+1e-11)
	}
	t := arrIn("t", sh, -2, 2)
	l, err := compute(k, mk(p, true), mk(t, false))
	if good(l, err, lossName[k]) {
		lossIs(l, k, p, t, lossName[k])
	}
}

// loss objects are reusable and independent of each other; zero values work
func C12_reuse() {
	sh := []int{2}
	m, b := losses.NewMSE(), &losses.BCE{}
	for i := 0; i < 3; i++ {
		p, t := arrIn("p", sh, 0.1, 0.9), arrIn("t", sh, 0.1, 0.9)
		l, err := m.Compute(mk(p, i == 1), mk(t, false))
		if good(l, err, "reuse") {
			lossIs(l, 0, p, t, "reuse")
			if i == 1 {
				bp(l, "reuse")
				lossIs(l, 0, p, t, "reuse")
			}
		}
		l, err = b.Compute(mk(p, i == 0), mk(t, false))
		if good(l, err, "reuse") {
			lossIs(l, 1, p, t, "reuse")
		}
		// the same tensor as prediction and target
		s := mk(p, true)
		l, err = m.Compute(s, s)
		if good(l, err, "reuse") {
			lossIs(l, 0, p, p, "reuse")
		}
		p, t = arrIn("p", []int{1, 2}, 0.1, 0.9), arrIn("t", []int{1, 2}, 0.1, 0.9)
		l, err = new(losses.CE).Compute(mk(p, i == 0), mk(t, false))
		if good(l, err, "reuse") {
			lossIs(l, 2, p, t, "reuse")
		}
	}
}

/* C13 */

// dLoss is the analytic derivative with respect to each prediction.
func dLoss(k int, p, t A) A {
	r := newA(p.sh)
	n := float64(p.sh[0])
	for i := range r.d {
		x, y := p.d[i], t.d[i]
		if k > 0 && !(x > clipEps && x < 1-clipEps) {
			continue // clipped
		}
		switch k {
		case 0:
			r.d[i] = 2 * (x - y) / n
		case 1:
			r.d[i] = ((1-y)/(1-x) - y/x) / n
		case 2:
			r.d[i] = -(y / x) / n
		}
	}
	return r
}

// ulp is below the distance of distinct floating-point numbers around the
// clipping bounds, and above the equality tolerance of the library.
const ulp = 1e-30

func offBounds(p A) {
	for i := range p.d {
		switch vh.Choose("region", 3) {
		case 0:
			vh.Assume(p.d[i]-clipEps > ulp)
			vh.Assume((1-clipEps)-p.d[i] > ulp)
		case 1:
			vh.Assume(clipEps-p.d[i] > ulp)
		case 2:
			vh.Assume(p.d[i]-(1-clipEps) > ulp)
		}
	}
}

// predictions as leaves: all of [0,1], targets in [0,1]
func C13_leaf() {
	k := vh.Choose("loss", 3)
	sh := lossShape(k, pick(2, 3))
	p, t := arrIn("p", sh, 0, 1), arrIn("t", sh, 0, 1)
	offBounds(p)
	track := vh.Choose("track", 4)
	lossGrad(k, p, t, mk(p, track&1 == 0), mk(t, track&2 != 0), track&1 == 0, track&2 != 0)
}

func lossGrad(k int, p, t A, pt, tt T, ptr, ttr bool) {
	l, err := compute(k, pt, tt)
	if !good(l, err, lossName[k]) || !bp(l, lossName[k]) {
		return
	}
	if ptr {
		gradIs(pt, dLoss(k, p, t), lossName[k])
	} else {
		noGrad(pt, lossName[k])
	}
	if !ttr {
		noGrad(tt, lossName[k]+": target")
	}
}

// outside [0,1] and at the exact ends
func C13_ends_exact() {
	k := vh.Choose("loss", 3)
	sh := []int{2}
	if k == 2 {
		sh = [][]int{{1, 2}, {2, 1}}[vh.Choose("s", 2)]
	}
	p, t := arrIn("p", sh, 0.1, 0.9), arrIn("t", sh, 0, 1)
	p.d[0] = []float64{0, 1, -1, 3, 1e-13, 1 - 1e-13, 1e-11, 1 - 1e-11, math.Copysign(0, -1), 1e-300, 1e6}[vh.Choose("p", 11)]
	t.d[0] = []float64{0, 1, 0.5}[vh.Choose("t", 3)]
	lossGrad(k, p, t, mk(p, true), mk(t, false), true, false)
}

func C13_inside() {
	k := vh.Choose("loss", 3)
	var sh []int
	if k < 2 {
		sh = []int{1 + vh.Choose("n", pick(8, 16))}
	} else {
		sh = []int{1 + vh.Choose("batch", pick(4, 6)), 1 + vh.Choose("class", pick(4, 6))}
	}
	p, t := arrIn("p", sh, 0.001, 0.999), arrIn("t", sh, 0.001, 0.999)
	lossGrad(k, p, t, mk(p, true), mk(t, false), true, false)
}

func C13_large() {
	k := vh.Choose("loss", 3)
	sh := []int{[]int{16, 33, 64, 128, 260, 520}[vh.Choose("n", 6)]}
	if k == 2 {
		sh = append(sh, []int{1, 2, 7}[vh.Choose("c", 3)])
		if vh.Choose("flip", 2) == 1 {
			sh[0], sh[1] = sh[1], sh[0]
		}
	}
	p, t := arrIn("p", sh, 0.02, 0.98), arrIn("t", sh, 0.02, 0.98)
	lossGrad(k, p, t, mk(p, true), mk(t, false), true, false)
}

// small and large magnitudes for the squared error
func C13_mse_any() {
	sh := []int{1 + vh.Choose("n", 6)}
	p, t := arr("p", sh), arr("t", sh)
	lossGrad(0, p, t, mk(p, true), mk(t, vh.Choose("track", 2) == 1), true, true)
}

// chain builds a prediction of shape sh from leaves and returns the leaves.
func chain(c int, sh []int) (p T, xs []T, as []A, err error) {
	leaf := func(name string, s []int, lo, hi float64) T {
		a := arrIn(name, s, lo, hi)
		t := mk(a, true)
		as, xs = append(as, a), append(xs, t)
		return t
	}
	switch c {
	case 0: // sigmoid written out
		x := leaf("x", sh, -2, 2)
		e := x.Scale(-1).Exp()
		one := x.Pow(0)
		if e, err = e.Add(one); err != nil {
			return
		}
		p, err = one.Div(e)
	case 1: // product of two, one of them expanded
		x, y := leaf("x", sh, 0.3, 0.9), leaf("y", sh[len(sh)-1:], 0.3, 0.9)
		p, err = x.Mul(y)
	case 2: // reshaped slice of a larger leaf
		n := prod(sh)
		x := leaf("x", []int{n + 2}, 0.1, 0.9)
		if p, err = x.Slice([]tensor.Range{rng(1, n+1)}); err != nil {
			return
		}
		p, err = p.Reshape(sh)
	case 3: // the same leaf twice
		x := leaf("x", sh, 0.1, 0.4)
		p, err = x.Add(x.Pow(2))
	case 4: // mean over copies
		x := leaf("x", append([]int{2}, sh...), 0.1, 0.9)
		p, err = x.MeanAlong(0)
	case 5: // a scalar leaf expanded over constants
		x := leaf("x", []int{}, 0.1, 0.4)
		p, err = mk(arrIn("c", sh, 0.5, 2), false).Mul(x)
	case 6: // softmax, written out, along the last dimension
		x := leaf("x", sh, -1, 1)
		e := x.Exp()
		d := len(sh) - 1
		var s T
		if s, err = e.SumAlong(d); err != nil {
			return
		}
		if s, err = s.UnSqueeze(d); err != nil {
			return
		}
		if p, err = e.Div(s); err != nil {
			return
		}
		p = p.Scale(0.9)
	}
	return
}

func C13_chain() {
	k := vh.Choose("loss", 3)
	sh := []int{1 + vh.Choose("n", 3)}
	if k == 2 {
		sh = append([]int{1 + vh.Choose("b", 2)}, sh...)
	}
	p, xs, as, err := chain(vh.Choose("chain", 7), sh)
	if !good(p, err, "chain") {
		return
	}
	t := arrIn("t", sh, 0.001, 0.999)
	pa := read(p)
	l, err := compute(k, p, mk(t, false))
	if !good(l, err, "chain") || !bp(l, "chain") {
		return
	}
	total := lossWant(k, pa, t)
	gradIs(p, dLoss(k, pa, t), "chain: prediction")
	for i := range xs {
		gradD(xs[i], as[i], total, "chain: leaf")
	}
}

// a prediction that also feeds another term, and a loss that is scaled or
// combined before back-propagation
func C13_combined() {
	k := vh.Choose("loss", 3)
	sh := []int{2}
	if k == 2 {
		sh = []int{1, 2}
	}
	x := arrIn("x", sh, 0.2, 0.8)
	t := arrIn("t", sh, 0.01, 0.99)
	xt := mk(x, true)
	p := xt
	pa := x
	if vh.Choose("mid", 2) == 1 {
		p = xt.Scale(1)
	}
	l, err := compute(k, p, mk(t, false))
	if !good(l, err, "combined") {
		return
	}
	c := vh.Float("c")
	w := dLoss(k, pa, t)
	switch vh.Choose("how", 4) {
	case 0:
		l = l.Scale(c)
		for i := range w.d {
			w.d[i] *= c
		}
	case 1: // two losses of one prediction
		u := arrIn("u", sh, 0.01, 0.99)
		m, err := compute(k, p, mk(u, false))
		if !good(m, err, "combined") {
			return
		}
		if l, err = l.Add(m); !good(l, err, "combined") {
			return
		}
		v := dLoss(k, pa, u)
		for i := range w.d {
			w.d[i] += v.d[i]
		}
	case 2: // squared
		v := lossWant(k, pa, t)
		l = l.Pow(2)
		for i := range w.d {
			w.d[i] *= 2 * v
		}
	case 3: // a penalty on the prediction
		q, err := p.Mul(p)
		if !good(q, err, "combined") {
			return
		}
		if q, err = q.Flatten(0); !good(q, err, "combined") {
			return
		}
		if q, err = q.SumAlong(0); !good(q, err, "combined") {
			return
		}
		if l, err = l.Add(q); !good(l, err, "combined") {
			return
		}
		for i := range w.d {
			w.d[i] += 2 * x.d[i]
		}
	}
	if bp(l, "combined") {
		gradIs(p, w, "combined")
		gradIs(xt, w, "combined: leaf")
	}
}

// one loss object over batches of different sizes, tracked and untracked, in
// any order: values (C12) and derivatives (C13) are those of a fresh object
func sequence(grad bool) {
	k := vh.Choose("loss", 3)
	var f interface{ Compute(p, t T) (T, error) }
	switch k {
	case 0:
		f = losses.NewMSE()
	case 1:
		f = losses.NewBCE()
	case 2:
		f = losses.NewCE()
	}
	shs := [][]int{{1}, {2}, {3}}
	if k == 2 {
		shs = [][]int{{1, 2}, {2, 1}, {2, 2}, {3, 1}}
	}
	n := pick(2, 3)
	var ps []T
	var pa, ta []A
	for i := 0; i <= n; i++ {
		sh := shs[vh.Choose("sh", len(shs))]
		lo, hi := 0.1, 0.9
		if k == 0 {
			lo, hi = -4, 4
		}
		p, t := arrIn("p", sh, lo, hi), arrIn("t", sh, lo, hi)
		track := grad || vh.Choose("track", 2) == 1
		pt := mk(p, track)
		l, err := f.Compute(pt, mk(t, false))
		if !good(l, err, "sequence") {
			return
		}
		lossIs(l, k, p, t, "sequence")
		if grad {
			if !bp(l, "sequence") {
				return
			}
			ps, pa, ta = append(ps, pt), append(pa, p), append(ta, t)
		}
	}
	for i, t := range ps {
		gradIs(t, dLoss(k, pa[i], ta[i]), "sequence")
	}
}

func C12_sequence() { sequence(false) }
func C13_sequence() { sequence(true) }

func C12_again() { again(false) }
func C13_again() { again(true) }

// again evaluates one loss object on the same few tensors, over and over,
// some of them reset in between.
func again(grad bool) {
	k := vh.Choose("loss", 3)
	var f interface{ Compute(p, t T) (T, error) }
	switch k {
	case 0:
		f = losses.NewMSE()
	case 1:
		f = losses.NewBCE()
	case 2:
		f = losses.NewCE()
	}
	sh := []int{2}
	if k == 2 {
		sh = []int{2, 2}
	}
	var ps, ts [2]T
	var pa, ta [2]A
	for i := range ps {
		pa[i], ta[i] = arrIn("p", sh, 0.1, 0.9), arrIn("t", sh, 0.1, 0.9)
		ps[i], ts[i] = mk(pa[i], grad), mk(ta[i], false)
	}
	for i := 0; i < 3; i++ {
		a, b := vh.Choose("p", 2), vh.Choose("t", 2)
		l, err := f.Compute(ps[a], ts[b])
		if !good(l, err, "again") {
			return
		}
		lossIs(l, k, pa[a], ta[b], "again")
		if grad && vh.Choose("act", 2) == 1 {
			if !bp(l, "again") {
				return
			}
			gradIs(ps[a], dLoss(k, pa[a], ta[b]), "again")
			noGrad(ps[1-a], "again")
			ps[a].ResetGradContext(true)
		}
	}
}
