package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C16: the fully connected layer.

func fcWant(x, w, b A) A {
	n, d, o := x.sh[0], x.sh[1], len(w.d)
	y := newA([]int{n, o})
	for i := 0; i < n; i++ {
		s := sumOf(x.d[i*d : (i+1)*d])
		for j := 0; j < o; j++ {
			y.d[i*o+j] = w.d[j]*s + b.d[j]
		}
	}
	return y
}

// fcGrads is the derivative of sum(g*y) with respect to x, w and b.
func fcGrads(x, w, b, g A) (dx, dw, db A) {
	n, d, o := x.sh[0], x.sh[1], len(w.d)
	dx, dw, db = newA(x.sh), newA(w.sh), newA(b.sh)
	for i := 0; i < n; i++ {
		s := sumOf(x.d[i*d : (i+1)*d])
		u := 0.
		for j := 0; j < o; j++ {
			gij := g.d[i*o+j]
			dw.d[j] += gij * s
			db.d[j] += gij
			u += gij * w.d[j]
		}
		for k := 0; k < d; k++ {
			dx.d[i*d+k] = u
		}
	}
	return
}

// givenInit hands out a given tensor, whatever is asked for.
type givenInit struct {
	t     T
	asked []int
}

func (c *givenInit) Init(sh []int) (T, error) {
	c.asked = cp(sh)
	return c.t, nil
}

// fcOf builds a layer with given parameters in one of three ways.
func fcOf(w, b T, in int) *layers.FC {
	switch vh.Choose("layer", 3) {
	case 0:
		return &layers.FC{Weight: w, Bias: b}
	case 1:
		l := &layers.FC{}
		ps := ptrs(l, "fc")
		*ps[0], *ps[1] = w, b
		return l
	}
	o := w.Shape()[0]
	wi, bi := &givenInit{t: w}, &givenInit{t: b}
	l, err := layers.NewFC(&layers.FCConfig{Inputs: in, Outputs: o, Initializers: map[string]layers.Initializer{"Weight": wi, "Bias": bi}})
	vh.Assert(err == nil && l != nil, "NewFC")
	vh.Assert(sameShape(wi.asked, []int{o}) && sameShape(bi.asked, []int{o}), "NewFC: initializer's shape")
	vh.Assert(l.Weight == w && l.Bias == b, "NewFC: parameters")
	return l
}

// ptrs fetches the pointers to the weight and to the bias.
func ptrs(l *layers.FC, label string) [2]*T {
	ws := l.Weights()
	vh.Assert(len(ws) == 2, label+": number of weights")
	vh.Assert(ws[0].Trainable && ws[1].Trainable, label+": trainable")
	if ws[0].Value == &l.Bias {
		ws[0], ws[1] = ws[1], ws[0]
	}
	vh.Assert(ws[0].Value == &l.Weight && ws[1].Value == &l.Bias, label+": pointers")
	return [2]*T{ws[0].Value, ws[1].Value}
}

func fcIs(l *layers.FC, t T, x, w, b A, label string) T {
	y, err := l.Forward(t)
	if !good(y, err, label) {
		return nil
	}
	eqT(y, fcWant(x, w, b), label)
	return y
}

func fcDims(q, t int) (n, d, o int) {
	m := pick(q, t)
	n = 1 + vh.Choose("batch", m)
	d = 1 + vh.Choose("features", m)
	o = 1 + vh.Choose("outputs", m)
	return
}

func C16_value() {
	n, d, o := fcDims(4, 6)
	x, w, b := arr("x", []int{n, d}), arr("w", []int{o}), arr("b", []int{o})
	l := fcOf(mk(w, true), mk(b, true), d)
	t := mk(x, false)
	fcIs(l, t, x, w, b, "value")
	eqT(t, x, "value: input")
	eqT(l.Weight, w, "value: weight")
	eqT(l.Bias, b, "value: bias")
}

// operands in every state and provenance
func C16_state() {
	n, d, o := []int{1, 3, 2}[vh.Choose("batch", 3)], 2, 3
	x, w, b := arr("x", []int{n, d}), arr("w", []int{o}), arr("b", []int{o})
	xo, wo, bo := inState(vh.Choose("xs", nStates), x), inState(vh.Choose("ws", nStates), w), inState(vh.Choose("bs", nStates), b)
	l := &layers.FC{Weight: wo.t, Bias: bo.t}
	y := fcIs(l, xo.t, x, w, b, "state")
	if y == nil {
		return
	}
	spent := xo.spent || wo.spent || bo.spent
	tracked := (xo.tracked || wo.tracked || bo.tracked) && !spent
	if xo.derived || wo.derived || bo.derived {
		return // open whether the result is tracked
	}
	if tracked {
		vh.Assert(bp(y, "state"), "state")
		dx, dw, db := fcGrads(x, w, b, fillA([]int{n, o}, 1))
		for i, p := range []operand{xo, wo, bo} {
			if p.tracked {
				gradIs(p.t, []A{dx, dw, db}[i], "state: gradient")
			}
		}
	}
}

func C16_large() {
	k := vh.Choose("k", 9)
	n, d, o := []int{33, 1, 1, 7, 2, 16, 130, 2, 2}[k], []int{2, 65, 1, 9, 17, 3, 3, 260, 2}[k], []int{3, 2, 70, 8, 19, 17, 2, 2, 260}[k]
	x, w, b := arr("x", []int{n, d}), arr("w", []int{o}), arr("b", []int{o})
	g := arr("g", []int{n, o})
	xt, l := mk(x, true), fcOf(mk(w, true), mk(b, true), d)
	y := fcIs(l, xt, x, w, b, "large")
	if y == nil || !weighted(y, g, "large") {
		return
	}
	dx, dw, db := fcGrads(x, w, b, g)
	gradIs(xt, dx, "large: input")
	gradIs(l.Weight, dw, "large: weight")
	gradIs(l.Bias, db, "large: bias")
}

func C16_T_large() {
	k := vh.Choose("k", 4)
	n, d, o := []int{64, 100, 3, 32}[k], []int{12, 3, 40, 31}[k], []int{10, 9, 100, 33}[k]
	x, w, b := arr("x", []int{n, d}), arr("w", []int{o}), arr("b", []int{o})
	xt, l := mk(x, true), fcOf(mk(w, true), mk(b, true), d)
	y := fcIs(l, xt, x, w, b, "large")
	if y == nil || !bp(y, "large") {
		return
	}
	dx, dw, db := fcGrads(x, w, b, fillA([]int{n, o}, 1))
	gradIs(xt, dx, "large: input")
	gradIs(l.Weight, dw, "large: weight")
	gradIs(l.Bias, db, "large: bias")
}

func C16_gradient() {
	n, d, o := fcDims(3, 4)
	x, w, b := arr("x", []int{n, d}), arr("w", []int{o}), arr("b", []int{o})
	vjp("gradient", []A{x, w, b}, func(ts []T) (T, error) {
		return (&layers.FC{Weight: ts[1], Bias: ts[2]}).Forward(ts[0])
	})
}

// inputs and parameters that are themselves computed
func C16_chain() {
	n, d, o := 2, 1+vh.Choose("features", 2), 1+vh.Choose("outputs", 2)
	x, xs, xa, err := chainAny(vh.Choose("x", 6), []int{n, d})
	if !good(x, err, "chain") {
		return
	}
	w, ws, wa, err := chainAny(vh.Choose("w", 6), []int{o})
	if !good(w, err, "chain") {
		return
	}
	b, bs, ba, err := chainAny(vh.Choose("b", 3), []int{o})
	if !good(b, err, "chain") {
		return
	}
	xv, wv, bv := read(x), read(w), read(b)
	y := fcIs(&layers.FC{Weight: w, Bias: b}, x, xv, wv, bv, "chain")
	g := arr("g", []int{n, o})
	if y == nil || !weighted(y, g, "chain") {
		return
	}
	dx, dw, db := fcGrads(xv, wv, bv, g)
	gradIs(x, dx, "chain: input")
	gradIs(w, dw, "chain: weight")
	gradIs(b, db, "chain: bias")
	total := dotSum(read(y), g)
	leaves, as := append(append(xs, ws...), bs...), append(append(xa, wa...), ba...)
	for i := range leaves {
		gradD(leaves[i], as[i], total, "chain: leaf")
	}
}

// the same tensor in two places
func C16_alias() {
	o := 1 + vh.Choose("o", 3)
	w := arr("w", []int{o})
	t := mk(w, true)
	switch vh.Choose("k", 3) {
	case 0: // weight and bias are one tensor
		x := arr("x", []int{2, 2})
		xt := mk(x, true)
		y := fcIs(&layers.FC{Weight: t, Bias: t}, xt, x, w, w, "alias")
		g := arr("g", []int{2, o})
		if y == nil || !weighted(y, g, "alias") {
			return
		}
		gradD(t, w, dotSum(read(y), g), "alias: parameter")
		gradD(xt, x, dotSum(read(y), g), "alias: input")
	case 1: // the input is made of the weight
		xt, err := t.UnSqueeze(vh.Choose("d", 2))
		if !good(xt, err, "alias") {
			return
		}
		b := arr("b", []int{o})
		bt := mk(b, true)
		y := fcIs(&layers.FC{Weight: t, Bias: bt}, xt, read(xt), w, b, "alias")
		if y == nil {
			return
		}
		g := arr("g", y.Shape())
		if !weighted(y, g, "alias") {
			return
		}
		gradD(t, w, dotSum(read(y), g), "alias: parameter")
		gradD(bt, b, dotSum(read(y), g), "alias: bias")
	case 2: // one layer on several inputs, its own output among them
		b, x := arr("b", []int{o}), arr("x", []int{2, 2})
		xt, bt := mk(x, true), mk(b, true)
		l := &layers.FC{Weight: t, Bias: bt}
		y := fcIs(l, xt, x, w, b, "alias")
		if y == nil {
			return
		}
		ya := read(y)
		z := fcIs(l, y, ya, w, b, "alias")
		if z == nil {
			return
		}
		u, err := z.Add(y)
		if !good(u, err, "alias") {
			return
		}
		g := arr("g", []int{2, o})
		if !weighted(u, g, "alias") {
			return
		}
		total := dotSum(read(u), g)
		gradD(t, w, total, "alias: weight")
		gradD(bt, b, total, "alias: bias")
		gradD(xt, x, total, "alias: input")
	}
}

// batches share the parameters: gradients accumulate until they are reset
func C16_accumulate() {
	o := 2
	w, b := arr("w", []int{o}), arr("b", []int{o})
	l := fcOf(mk(w, true), mk(b, true), 2)
	x1, x2 := arr("x", []int{1 + vh.Choose("n1", 2), 2}), arr("z", []int{1 + vh.Choose("n2", 2), 1})
	t1, t2 := mk(x1, false), mk(x2, vh.Choose("track", 2) == 1)
	g1, g2 := arr("g", []int{x1.sh[0], o}), arr("h", []int{x2.sh[0], o})
	y1 := fcIs(l, t1, x1, w, b, "accumulate")
	y2 := fcIs(l, t2, x2, w, b, "accumulate")
	if y1 == nil || y2 == nil {
		return
	}
	_, dw1, db1 := fcGrads(x1, w, b, g1)
	dx2, dw2, db2 := fcGrads(x2, w, b, g2)
	both := func(a, c A) A { return el2(a, c, func(x, y float64) float64 { return x + y }) }
	if vh.Choose("one graph", 2) == 0 {
		if !weighted(y1, g1, "accumulate") {
			return
		}
		gradIs(l.Weight, dw1, "accumulate: weight after one")
		gradIs(l.Bias, db1, "accumulate: bias after one")
		if !weighted(y2, g2, "accumulate") {
			return
		}
	} else {
		z1, err := y1.Mul(mk(g1, false))
		if !good(z1, err, "accumulate") {
			return
		}
		z2, err := y2.Mul(mk(g2, false))
		if !good(z2, err, "accumulate") {
			return
		}
		if z1, err = z1.SumAlong(0); !good(z1, err, "accumulate") {
			return
		}
		if z2, err = z2.SumAlong(0); !good(z2, err, "accumulate") {
			return
		}
		z, err := z2.Add(z1)
		if !good(z, err, "accumulate") || !bp(z, "accumulate") {
			return
		}
	}
	gradIs(l.Weight, both(dw1, dw2), "accumulate: weight")
	gradIs(l.Bias, both(db1, db2), "accumulate: bias")
	if t2.Gradient() != nil {
		gradIs(t2, dx2, "accumulate: input")
	}
	// and start afresh
	l.Weight.ResetGradContext(true)
	l.Bias.ResetGradContext(true)
	y := fcIs(l, t1, x1, w, b, "accumulate: again")
	if y == nil || !weighted(y, g1, "accumulate: again") {
		return
	}
	gradIs(l.Weight, dw1, "accumulate: weight again")
	gradIs(l.Bias, db1, "accumulate: bias again")
}

// any sequence of replacements through pointers fetched at any time
func C16_replace() {
	o := 1 + vh.Choose("o", 2)
	w, b := arr("w", []int{o}), arr("b", []int{o})
	l := fcOf(mk(w, true), mk(b, true), 2)
	ps := ptrs(l, "replace")
	x := arr("x", []int{2, 1})
	xt := mk(x, false)
	n := pick(3, 4)
	for i := 0; i < n; i++ {
		k := vh.Choose("op", 8)
		switch k {
		case 0:
			w = arr("w", []int{o})
			*ps[0] = mk(w, true)
		case 1:
			b = arr("b", []int{o})
			*ps[1] = mk(b, true)
		case 2:
			ps = ptrs(l, "replace")
		case 3:
			w = arr("w", []int{o})
			l.Weight = mk(w, vh.Choose("track", 2) == 1)
		case 4: // other number of outputs
			o = 3 - o
			w, b = arr("w", []int{o}), arr("b", []int{o})
			q := ptrs(l, "replace")
			*q[0], *ps[1] = mk(w, true), mk(b, true)
		case 5: // swap
			w, b = b, w
			*ps[0], *ps[1] = *ps[1], *ps[0]
		case 6: // a result as the parameter
			b = el2(b, w, func(x, y float64) float64 { return x - y })
			d, err := (*ps[1]).Sub(*ps[0])
			if !good(d, err, "replace") {
				return
			}
			*ps[1] = d
		case 7:
			fcIs(l, xt, x, w, b, "replace: forward between")
		}
		vh.Assert(l.Weight == *ps[0] && l.Bias == *ps[1], "replace: pointers")
	}
	g := arr("g", []int{2, o})
	y := fcIs(l, xt, x, w, b, "replace")
	if y == nil {
		return
	}
	l.Weight.ResetGradContext(true)
	l.Bias.ResetGradContext(true)
	y = fcIs(l, xt, x, w, b, "replace")
	if y == nil || !weighted(y, g, "replace") {
		return
	}
	if l.Weight == l.Bias {
		return
	}
	_, dw, db := fcGrads(x, w, b, g)
	gradIs(*ps[0], dw, "replace: weight")
	gradIs(*ps[1], db, "replace: bias")
}

// replaced by an optimizer between forward passes
func C16_update() {
	o := 1 + vh.Choose("o", 2)
	w, b := arr("w", []int{o}), arr("b", []int{o})
	l := fcOf(mk(w, true), mk(b, true), 2)
	ps := ptrs(l, "update")
	x := arr("x", []int{2, 2})
	xt := mk(x, vh.Choose("track", 2) == 1)
	lr := vh.Float("lr")
	sgd := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
	g := arr("g", []int{2, o})
	y := fcIs(l, xt, x, w, b, "update")
	if y == nil || !weighted(y, g, "update") {
		return
	}
	which := 1 + vh.Choose("which", 3)
	_, dw, db := fcGrads(x, w, b, g)
	for i, d := range []A{dw, db} {
		if which>>i&1 == 0 {
			continue
		}
		vh.Assert(sgd.Update(ps[i]) == nil, "update")
		f := func(x, y float64) float64 { return x - lr*y }
		if i == 0 {
			w = el2(w, d, f)
		} else {
			b = el2(b, d, f)
		}
	}
	fcIs(l, xt, x, w, b, "update: after")
}

// two layers built from one configuration do not share parameters
func C16_defaults() {
	in, o := 1+vh.Choose("in", 6), 1+vh.Choose("out", 4)
	c := &layers.FCConfig{Inputs: in, Outputs: o}
	which := vh.Choose("given", 4)
	wa, ba := A{}, fillA([]int{o}, 0)
	if which > 0 {
		c.Initializers = map[string]layers.Initializer{}
	}
	wv, bv := 0., 0.
	if which&1 != 0 {
		wv = vh.Float("wv")
		c.Initializers["Weight"] = initializers.NewFull(&initializers.FullConfig{Value: wv})
	}
	if which&2 != 0 {
		bv = vh.Float("bv")
		c.Initializers["Bias"] = initializers.NewFull(&initializers.FullConfig{Value: bv})
		ba = fillA([]int{o}, bv)
	}
	l, err := layers.NewFC(c)
	vh.Assert(err == nil && l != nil, "defaults")
	m, err := layers.NewFC(c)
	vh.Assert(err == nil && m != nil, "defaults")
	for _, f := range []*layers.FC{l, m} {
		ps := ptrs(f, "defaults")
		vh.Assert(sameShape(f.Weight.Shape(), []int{o}) && sameShape(f.Bias.Shape(), []int{o}), "defaults: shapes")
		eqT(f.Bias, ba, "defaults: bias")
		if which&1 != 0 {
			eqT(f.Weight, fillA([]int{o}, wv), "defaults: weight")
		}
		wa = read(f.Weight)
		bound := math.Sqrt(6 / float64(in+o))
		for i := range wa.d {
			if which&1 == 0 {
				vh.Assert(wa.d[i] >= -bound-1e-12 && wa.d[i] <= bound+1e-12, "defaults: bound")
			}
		}
		x := arr("x", []int{2, in})
		xt := mk(x, true)
		y := fcIs(f, xt, x, wa, ba, "defaults")
		if y == nil || !bp(y, "defaults") {
			return
		}
		dx, dw, db := fcGrads(x, wa, ba, fillA([]int{2, o}, 1))
		gradIs(*ps[0], dw, "defaults: weight gradient")
		gradIs(*ps[1], db, "defaults: bias gradient")
		gradIs(xt, dx, "defaults: input gradient")
	}
	vh.Assert(l.Weight != m.Weight && l.Bias != m.Bias, "defaults: shared parameters")
}

// a row with infinite or undefined entries leaves the others alone
func C16_rows() {
	n, d, o := 3, 2, 2
	x, w, b := arr("x", []int{n, d}), arr("w", []int{o}), arr("b", []int{o})
	r := vh.Choose("row", n)
	x.d[r*d+vh.Choose("col", d)] = []float64{math.Inf(1), math.Inf(-1), math.NaN()}[vh.Choose("v", 3)]
	t := mk(x, false)
	y, err := (&layers.FC{Weight: mk(w, true), Bias: mk(b, true)}).Forward(t)
	if !good(y, err, "rows") || !sameShape(y.Shape(), []int{n, o}) {
		return
	}
	ya, want := read(y), fcWant(x, w, b)
	for i := range ya.d {
		if i/o != r {
			vh.Eq(ya.d[i], want.d[i], "rows")
		}
	}
}

// one row at a time gives the same rows
func C16_split() {
	n, d, o := 3, 1+vh.Choose("d", 3), 1+vh.Choose("o", 3)
	x, w, b := arr("x", []int{n, d}), arr("w", []int{o}), arr("b", []int{o})
	t := mk(x, vh.Choose("track", 2) == 1)
	l := fcOf(mk(w, true), mk(b, true), d)
	y := fcIs(l, t, x, w, b, "split")
	if y == nil {
		return
	}
	ya := read(y)
	from := vh.Choose("from", n)
	to := from + 1 + vh.Choose("to", n-from)
	s, err := t.Slice(rngs(from, to))
	if !good(s, err, "split") {
		return
	}
	z, err := l.Forward(s)
	if !good(z, err, "split") {
		return
	}
	eqT(z, A{[]int{to - from, o}, ya.d[from*o : to*o]}, "split")
}

// the behaviour in floating point at several magnitudes
func C16_exact() {
	v := []float64{0, 1, -1, 1e-100, -1e-150, 1e100, 1e-200, 0.1}
	c := func(n string) float64 { return v[vh.Choose(n, len(v))] }
	w, b := A{[]int{2}, []float64{c("w"), 3}}, A{[]int{2}, []float64{c("b"), -0.5}}
	x := A{[]int{1, 2}, []float64{c("x"), 0}}
	if vh.Choose("second", 2) == 1 {
		x.d[1] = x.d[0] * 2
	}
	xt, l := mk(x, true), &layers.FC{Weight: mk(w, true), Bias: mk(b, true)}
	y := fcIs(l, xt, x, w, b, "exact")
	if y == nil || !bp(y, "exact") {
		return
	}
	dx, dw, db := fcGrads(x, w, b, fillA([]int{1, 2}, 1))
	gradIs(xt, dx, "exact: input")
	gradIs(l.Weight, dw, "exact: weight")
	gradIs(l.Bias, db, "exact: bias")
}

// C16_again evaluates one layer on the same few tensors, over and over, with
// resets and replacements in between.
func C16_again() {
	w, b := arr("w", []int{2}), arr("b", []int{2})
	l := fcOf(mk(w, true), mk(b, true), 2)
	if l == nil {
		return
	}
	var xs [2]T
	var xa [2]A
	var tr [2]bool
	for i := range xs {
		xa[i] = arr("x", []int{2, 2})
		tr[i] = vh.Choose("track", 2) == 1
		xs[i] = mk(xa[i], tr[i])
	}
	g := arr("g", []int{2, 2})
	for i := 0; i < 3; i++ {
		k := vh.Choose("x", 2)
		y := fcIs(l, xs[k], xa[k], w, b, "again")
		if y == nil {
			return
		}
		switch vh.Choose("act", 3) {
		case 1: // one pass of training, without an update
			z, err := y.Mul(mk(g, false))
			if !good(z, err, "again") || !bp(z, "again") {
				return
			}
			dx, dw, db := fcGrads(xa[k], w, b, g)
			gradIs(l.Weight, dw, "again: W")
			gradIs(l.Bias, db, "again: B")
			if tr[k] {
				gradIs(xs[k], dx, "again: x")
				xs[k].ResetGradContext(true)
			}
			l.Weight.ResetGradContext(true)
			l.Bias.ResetGradContext(true)
		case 2:
			w, b = arr("w", []int{2}), arr("b", []int{2})
			l.Weight, l.Bias = mk(w, true), mk(b, true)
		}
	}
}
