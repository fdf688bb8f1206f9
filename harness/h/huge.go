package h

import (
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// Sizes beyond every small-size shortcut, chunk or narrow counter: thousands
// of elements, all but a few of them given numbers.

var hugeShapes = [][]int{{4100}, {70, 66}, {5, 1030}, {1030, 5}, {1, 10050}, {10050}, {4, 300, 4}, {2, 2, 1100}}

// sparse is symbolic in at most five elements.
func sparse(name string, sh []int, lo, hi float64) A {
	a := newA(sh)
	n := len(a.d)
	for i := range a.d {
		a.d[i] = lo + (hi-lo)*float64((i*37+i/64)%128)/128
	}
	for _, i := range []int{0, n / 2, n - 1, n - 2, n / 3} {
		if i >= 0 && i < n {
			a.d[i] = vh.FloatIn(name, lo, hi)
		}
	}
	return a
}

func hugeShape() []int { return hugeShapes[vh.Choose("shape", len(hugeShapes))] }

func C03_huge() {
	sh := hugeShape()
	a := sparse("a", sh, 1, 2)
	t := mk(a, false)
	op := vh.Choose("op", 11)
	switch op {
	case 0:
		eqT(t.Scale(3), a.mapf(func(x float64) float64 { return 3 * x }), "huge")
		return
	case 1:
		eqT(t.Pow(2), a.mapf(func(x float64) float64 { return x * x }), "huge")
		return
	}
	bs := cp(sh)
	switch op {
	case 2, 3:
		bs = bs[1:]
	case 4, 5:
		bs[len(bs)-1] = 1
	case 6:
		bs[0] = 1
	}
	b := sparse("b", bs, 3, 4)
	if op == 10 { // one position differs, or none
		b = A{cp(sh), append([]float64{}, a.d...)}
		want := vh.Choose("differ", 2) == 0
		if !want {
			b.d[len(b.d)-1] += 0.5
		}
		eq, err := t.Equals(mk(b, false))
		vh.Assert(err == nil && eq == want, "huge equals")
		return
	}
	u := mk(b, false)
	var o T
	var err error
	var w A
	switch op {
	case 2, 4, 7:
		o, err = t.Add(u)
		w = el2(a, b, func(x, y float64) float64 { return x + y })
	case 3, 5, 6:
		o, err = u.Mul(t)
		w = el2(a, b, func(x, y float64) float64 { return x * y })
	case 8:
		o, err = t.Gt(u)
		w = newA(sh)
	case 9:
		o, err = t.ElMax(u)
		w = b
	}
	if good(o, err, "huge") {
		eqT(o, w, "huge")
	}
}

func C04_huge() {
	ps := [][2][]int{{{2, 4100}, {4100, 2}}, {{70, 66}, {66, 2}}, {{1100, 2}, {2, 3}}, {{2, 3}, {3, 1100}}, {{300, 2, 2}, {2, 2}}, {{2, 2}, {300, 2, 2}}, {{17, 1, 1, 3}, {19, 3, 2}}}
	k := vh.Choose("op", len(ps)+5)
	if k < len(ps) {
		a, b := sparse("a", ps[k][0], 1, 2), sparse("b", ps[k][1], 1, 2)
		o, err := mk(a, false).MatMul(mk(b, false))
		if good(o, err, "huge matmul") {
			eqT(o, matmulA(a, b), "huge matmul")
		}
		return
	}
	switch k -= len(ps); k {
	case 0, 1, 2:
		p := [][2][]int{{{10050}, {10050}}, {{1030, 4}, {4}}, {{5, 1030}, {5, 1030}}}[k]
		a, b := sparse("a", p[0], 1, 2), sparse("b", p[1], 1, 2)
		o, err := mk(a, false).Dot(mk(b, false))
		if good(o, err, "huge dot") {
			eqT(o, dotA(a, b), "huge dot")
		}
	default:
		a := sparse("a", [][]int{{70, 66}, {3, 1400}}[k-3], 1, 2)
		o, err := mk(a, false).Transpose()
		if good(o, err, "huge transpose") {
			eqT(o, transA(a), "huge transpose")
		}
	}
}

func C05_huge() {
	sh := hugeShape()
	op := vh.Choose("op", 7)
	a := sparse("a", sh, 1, 2)
	if op >= 5 { // an order known in advance
		for i := range a.d {
			a.d[i] = float64((i*37 + i/64) % 128)
		}
		i := []int{0, len(a.d) / 2, len(a.d) - 1}[vh.Choose("at", 3)]
		a.d[i] = []float64{vh.FloatIn("max", 200, 300), vh.FloatIn("min", -300, -200)}[op-5]
	}
	k := vh.Choose("dim", len(sh)+1)
	if k == len(sh) {
		checkAll(op, a, mk(a, false), "huge "+statName[op])
		return
	}
	checkAlong(op, a, mk(a, false), k, "huge "+statName[op]+"along")
}

func C06_huge() {
	sh := hugeShape()
	a := sparse("a", sh, 1, 2)
	t := mk(a, false)
	n := len(a.d)
	last := len(sh) - 1
	mid := make([]tensor.Range, len(sh))
	ms := cp(sh)
	for i := range mid {
		if sh[i] > 2 {
			mid[i] = rng(1, sh[i]-1)
			ms[i] = sh[i] - 2
		}
	}
	var o T
	var err error
	var w A
	switch vh.Choose("op", 9) {
	case 0:
		o, err = t.Reshape(rev(sh))
		w = A{rev(sh), a.d}
	case 1:
		o, err = t.Flatten(0)
		w = A{[]int{n}, a.d}
	case 2:
		o, err = t.Slice(mid)
		w = sliceA(a, mid)
	case 3:
		p := sparse("p", ms, 5, 6)
		o, err = t.Patch(mid, mk(p, false))
		w = patchA(a, mid, p)
	case 4:
		b := sparse("b", sh, 5, 6)
		o, err = tensor.Concat([]T{t, mk(b, false)}, last)
		w = concatA([]A{a, b}, last)
	case 5:
		o, err = t.UnSqueeze(len(sh))
		w = A{append(cp(sh), 1), a.d}
	case 6:
		bs := cp(sh)
		bs[last] = 1
		b := sparse("b", bs, 5, 6)
		o, err = mk(b, false).Broadcast(cp(sh))
		w = bcTo(b, sh)
	case 7:
		v := vh.Float("v")
		o, err = tensor.Full(cp(sh), v, nil)
		w = fillA(sh, v)
	case 8: // and of another size before
		for _, k := range [][]int{{4, 260}, {44, 300}, {0, 70}}[vh.Choose("eye", 3)] {
			if k == 0 {
				continue
			}
			e, err := tensor.Eye(k, nil)
			if !good(e, err, "huge eye") {
				return
			}
			vh.Assert(e.NElems() == k*k && sameShape(e.Shape(), []int{k, k}), "huge eye: shape")
			for _, i := range []int{0, 1, k / 2, k - 2, k - 1} {
				for _, j := range []int{0, 1, k / 2, k - 2, k - 1} {
					v, err := e.At(i, j)
					vh.Assert(err == nil, "huge eye: At")
					if i == j {
						vh.Eq(v, 1, "huge eye")
					} else {
						vh.Eq(v, 0, "huge eye")
					}
				}
			}
		}
		return
	}
	if good(o, err, "huge") {
		eqT(o, w, "huge")
		vh.Assert(o.NElems() == prod(w.sh), "huge: NElems")
	}
}

// derivatives (C02) and those of implicitly expanded operands (C07)
func C02_huge() {
	sh := hugeShape()
	last := len(sh) - 1
	a, g := sparse("a", sh, 1, 2), sparse("g", sh, 1, 2)
	t := mk(a, true)
	var y T
	var err error
	w := newA(sh)
	switch vh.Choose("op", 8) {
	case 0:
		y, err = t.Mul(mk(g, false))
		w = g
	case 1:
		y, err = t.Pow(2).Mul(mk(g, false))
		for i, x := range a.d {
			w.d[i] = 2 * x * g.d[i]
		}
	case 2:
		y, err = t.SumAlong(last)
		w = fillA(sh, 1)
	case 3:
		y, err = t.MeanAlong(0)
		w = fillA(sh, 1/float64(sh[0]))
	case 4:
		y, err = t.Slice([]tensor.Range{rng(sh[0]-1, sh[0])})
		for i := range w.d {
			if i >= len(w.d)-len(w.d)/sh[0] {
				w.d[i] = 1
			}
		}
	case 5:
		if y, err = t.Flatten(0); err == nil {
			y, err = y.Mul(mk(A{[]int{len(g.d)}, g.d}, false))
		}
		w = g
	case 6:
		y, err = tensor.Concat([]T{mk(g, false), t}, last)
		w = fillA(sh, 1)
	case 7:
		y, err = mk(g, false).Div(t)
		for i, x := range a.d {
			w.d[i] = -g.d[i] / (x * x)
		}
	}
	if good(y, err, "huge") && bp(y, "huge") {
		gradIs(t, w, "huge")
	}
}

func C07_huge() {
	sh := hugeShape()
	bs := cp(sh)
	switch vh.Choose("expand", 4) {
	case 0:
		bs = bs[1:]
	case 1:
		bs[len(bs)-1] = 1
	case 2:
		bs[0] = 1
	case 3:
		bs = []int{1}
	}
	a, b := sparse("a", sh, 1, 2), sparse("b", bs, 1, 2)
	s, t := mk(a, true), mk(b, true)
	y, err := t.Mul(s)
	if good(y, err, "huge") && bp(y, "huge") {
		gradIs(s, bcTo(b, sh), "huge")
		gradIs(t, unbc(a, bs), "huge")
	}
}

func C12_huge() { hugeLoss(false) }
func C13_huge() { hugeLoss(true) }

func hugeLoss(grad bool) {
	k := vh.Choose("loss", 3)
	ns := []int{1025, 4100, 10050}
	if grad { // within the step limit
		ns = ns[:2]
	}
	sh := []int{ns[vh.Choose("n", len(ns))]}
	if k == 2 {
		sh = [][]int{{1030, 2}, {2, 1030}, {70, 66}}[vh.Choose("s", 3)]
	}
	p, t := fillA(sh, 0.5), fillA(sh, 0.25)
	n := len(p.d)
	for _, i := range []int{0, n / 2, n - 1} {
		p.d[i], t.d[i] = vh.FloatIn("p", 0.2, 0.8), vh.FloatIn("t", 0.2, 0.8)
	}
	pt := mk(p, grad)
	var l T
	var err error
	switch k {
	case 0:
		l, err = losses.NewMSE().Compute(pt, mk(t, false))
	case 1:
		l, err = losses.NewBCE().Compute(pt, mk(t, false))
	case 2:
		l, err = losses.NewCE().Compute(pt, mk(t, false))
	}
	if !good(l, err, "huge") {
		return
	}
	if !grad {
		eqT(l, A{[]int{}, []float64{lossWant(k, p, t)}}, "huge")
	} else if bp(l, "huge") {
		gradIs(pt, dLoss(k, p, t), "huge")
	}
}

func hugeAct() (forwarder, func(x float64) (y, d float64)) {
	if vh.Choose("act", 2) == 0 {
		return activations.NewRelu(), func(x float64) (float64, float64) {
			if x > 0 {
				return x, 1
			}
			return 0, 0
		}
	}
	m := vh.Float("m")
	return activations.NewLeakyRelu(&activations.LeakyReluConfig{M: m}), func(x float64) (float64, float64) {
		if x > 0 {
			return x, 1
		}
		return m * x, m
	}
}

// signed is sparse, with negative elements at every third position.
func signed(sh []int) A {
	a := sparse("x", sh, 1, 2)
	for i := range a.d {
		if i%3 == 1 {
			a.d[i] = -a.d[i]
		}
	}
	return a
}

func C14_huge() {
	f, w := hugeAct()
	x := signed(hugeShape())
	y, err := f.Forward(mk(x, false))
	if good(y, err, "huge") {
		eqT(y, x.mapf(func(v float64) float64 { r, _ := w(v); return r }), "huge")
	}
}

func C15_huge() {
	f, w := hugeAct()
	sh := hugeShape()
	vh.Assume(prod(sh) < 10000) // within the step limit
	x := signed(sh)
	t := mk(x, true)
	y, err := f.Forward(t)
	if good(y, err, "huge") && bp(y, "huge") {
		gradIs(t, x.mapf(func(v float64) float64 { _, d := w(v); return d }), "huge")
	}
}

func C17_huge() {
	sh := hugeShape()
	w, g := sparse("w", sh, 1, 2), sparse("g", sh, 1, 2)
	lr := vh.Float("lr")
	t := withGrad(w, g, "huge")
	if t != nil {
		update(optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr}), &t, w, g, lr, "huge")
	}
}

func C19_huge() {
	n := []int{4100, 10050, 70000}[vh.Choose("n", 3)]
	p := newA([]int{n})
	t := newA([]int{n})
	m := 0
	for i := range p.d {
		p.d[i] = float64(i % 128)
		t.d[i] = p.d[i]
		if i%5 == 2 {
			t.d[i]++
		} else {
			m++
		}
	}
	c := metrics.NewAccuracy()
	vh.Assert(c.Accumulate(mk(p, false), mk(t, false)) == nil, "huge")
	resultIs(c, m, n, "huge")
	vh.Assert(c.Accumulate(mk(p, false), mk(p, false)) == nil, "huge")
	resultIs(c, m+n, 2*n, "huge")
}

// C20_huge: the same call on one pair of large tensors, twice at once, and on
// another such pair.
func C20_huge() {
	k := vh.Choose("call", nSized+6)
	x := [][]int{{4100}, {5, 1030}}[vh.Choose("size", 2)]
	vh.Assume(k != 25 || x[0] == 5)
	a, b := sparse("a", x, 0.25, 0.5), sparse("b", x, 0.75, 1)
	for _, t := range []A{a, b} {
		for i := range t.d { // numbers only
			t.d[i] = float64(1+(i*37)%97) / 128
		}
	}
	do := func(p, q T) outcome {
		switch k - nSized {
		case 0:
			return ofT(losses.NewMSE().Compute(p, q))
		case 1:
			return ofT(losses.NewBCE().Compute(p, q))
		case 2:
			return ofT(losses.NewCE().Compute(p, q))
		case 3:
			return ofT(activations.NewRelu().Forward(p))
		case 4:
			return ofT(activations.NewSigmoid().Forward(p))
		case 5:
			return ofE(metrics.NewAccuracy().Accumulate(p, q))
		}
		return sized(k, p, q)
	}
	ta, tb := mk(a, false), mk(b, true)
	var of, og outcome
	vh.Parallel(func() { of = do(ta, tb) }, func() { og = do(ta, tb) }, "huge: race")
	of.is(do(mk(a, false), mk(b, true)), "huge")
	vh.Assert(og.err == of.err && (og.t != nil) == (of.t != nil), "huge: outcome")
}
