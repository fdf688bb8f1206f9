package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C17: the SGD update.

// sgdOf builds an optimizer and gives its learning rate.
func sgdOf() (*optimizers.SGD, float64) {
	switch vh.Choose("lr", 5) {
	case 0:
		return optimizers.NewSGD(nil), 0.01
	case 1:
		return optimizers.NewSGD(&optimizers.SGDConfig{}), 0
	case 2:
		c := &optimizers.SGDConfig{LearningRate: vh.FloatIn("lr", -1e6, -1e-6)}
		return optimizers.NewSGD(c), c.LearningRate
	case 3:
		c := &optimizers.SGDConfig{LearningRate: 1}
		return optimizers.NewSGD(c), 1
	}
	lr := vh.Float("lr")
	c := &optimizers.SGDConfig{LearningRate: lr}
	o := optimizers.NewSGD(c)
	c.LearningRate = 7 // the caller's to change
	return o, lr
}

func sgdWant(w, g A, lr float64) A {
	return el2(w, g, func(x, y float64) float64 { return x - lr*y })
}

// update runs Update through a pointer and checks everything about it.
func update(o *optimizers.SGD, p *T, w, g A, lr float64, label string) bool {
	old := *p
	sn := snapOf(old)
	err := o.Update(p)
	vh.Assert(err == nil, label+": error")
	if err != nil {
		return false
	}
	vh.Assert(*p != nil && *p != old, label+": replaced")
	eqT(*p, sgdWant(w, g, lr), label)
	sn.same(label + ": previous tensor")
	eqT(old.Gradient(), g, label+": previous gradient")
	return true
}

// withGrad builds a tracked tensor w whose gradient is g.
func withGrad(w, g A, label string) T {
	t := mk(w, true)
	if !weighted(t, g, label) {
		return nil
	}
	return t
}

func C17_update() {
	sh := shape("w", 0, 5, 3, pick(6, 12))
	w, g := arr("w", sh), arr("g", sh)
	o, lr := sgdOf()
	t := withGrad(w, g, "update")
	if t == nil {
		return
	}
	p := t
	if update(o, &p, w, g, lr, "update") {
		vh.Assert(t != p, "update: pointer")
		// the same tensor behind another pointer, and behind this one again
		q := t
		update(o, &q, w, g, lr, "update: another pointer")
		vh.Assert(q != p, "update: results are one tensor")
		p = t
		update(o, &p, w, g, lr, "update: again")
	}
}

func C17_large() {
	sh := [][]int{{64}, {100}, {8, 8}, {3, 33}, {33, 3}, {1, 70}, {4, 4, 5}, {2, 3, 4, 5}, {2, 2, 2, 2, 5}, {32, 32}}[vh.Choose("shape", 10)]
	w, g := arr("w", sh), arr("g", sh)
	lr := vh.Float("lr")
	t := withGrad(w, g, "large")
	if t != nil {
		update(optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr}), &t, w, g, lr, "large")
	}
}

// gradients out of arbitrary graphs, for leaves and for results
func C17_graph() {
	sh := [][]int{{}, {2}, {2, 2}, {1, 3}, {2, 1, 2}}[vh.Choose("shape", 5)]
	p, xs, as, err := chainAny(vh.Choose("chain", 6), sh)
	if !good(p, err, "graph") {
		return
	}
	pv := read(p)
	y, err := opUnary([]int{0, 1, 2, 3, 4, 5}[vh.Choose("op", 6)], p)
	if err != nil {
		y = p
	}
	if y.Gradient() != nil {
		return
	}
	if !bp(y, "graph") {
		return
	}
	o, lr := sgdOf()
	for i := range xs {
		g := xs[i].Gradient()
		if g == nil {
			return // not connected (comparisons and the like)
		}
		if !update(o, &xs[i], as[i], read(g), lr, "graph: leaf") {
			return
		}
	}
	if g := p.Gradient(); g != nil {
		update(o, &p, pv, read(g), lr, "graph: result")
	}
}

// gradients accumulated over several passes, and gradients shared by tensors
func C17_accumulated() {
	sh := [][]int{{}, {2}, {2, 2}}[vh.Choose("shape", 3)]
	w, v := arr("w", sh), arr("v", sh)
	t, u := mk(w, true), mk(v, true)
	g, h := arr("g", sh), arr("h", sh)
	o, lr := sgdOf()
	s, err := t.Add(u)
	if !good(s, err, "accumulated") {
		return
	}
	s2, err := u.Mul(t)
	if !good(s2, err, "accumulated") || !weighted(s, g, "accumulated") {
		return
	}
	if vh.Choose("second", 2) == 1 {
		if !weighted(s2, h, "accumulated") {
			return
		}
		pt, pu := t, u
		hv := el2(g, el2(h, v, mulf), addf)
		hw := el2(g, el2(h, w, mulf), addf)
		if update(o, &pt, w, hv, lr, "accumulated") && update(o, &pu, v, hw, lr, "accumulated") {
			pt = t // the tensor with the gradient once more
			update(o, &pt, w, hv, lr, "accumulated: again")
		}
		return
	}
	st := s
	if update(o, &t, w, g, lr, "accumulated") && update(o, &u, v, g, lr, "accumulated") {
		update(o, &st, el2(w, v, addf), g, lr, "accumulated: result")
	}
}

func addf(x, y float64) float64 { return x + y }
func mulf(x, y float64) float64 { return x * y }

// several updates of one tensor, of several tensors, by one optimizer or more
func C17_history() {
	n := 2
	ws := make([]A, n)
	gs := make([]A, n)
	ts := make([]T, n)
	for i := range ts {
		ws[i], gs[i] = arr("w", [][]int{{2}, {}}[i]), arr("g", [][]int{{2}, {}}[i])
		ts[i] = withGrad(ws[i], gs[i], "history")
	}
	la, lb := vh.Float("lr"), vh.Float("lr")
	os := []*optimizers.SGD{optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: la}), optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lb})}
	lrs := []float64{la, lb}
	has := []bool{true, true}
	for s := 0; s < pick(3, 4); s++ {
		i, k := vh.Choose("tensor", n), vh.Choose("optimizer", 2)
		if vh.Choose("pass", 2) == 1 {
			// a new pass over the current weight
			ts[i].ResetGradContext(true)
			gs[i] = arr("g", ws[i].sh)
			if !weighted(ts[i], gs[i], "history") {
				return
			}
			has[i] = true
		}
		if !has[i] {
			prev := ts[i]
			vh.Assert(os[k].Update(&ts[i]) != nil, "history: without gradient")
			vh.Assert(ts[i] == prev, "history: replaced after all")
			continue
		}
		if !update(os[k], &ts[i], ws[i], gs[i], lrs[k], "history") {
			return
		}
		ws[i] = sgdWant(ws[i], gs[i], lrs[k])
		// what comes out of an update has no gradient of its own
		has[i] = false
		eqT(ts[i], ws[i], "history")
	}
}

func C17_reject() {
	o, _ := sgdOf()
	if vh.Choose("nil pointer", 2) == 1 {
		vh.Assert(o.Update(nil) != nil, "reject: nil pointer")
		return
	}
	var t T
	sh := shape("w", 0, 3, 2, 4)
	w := arr("w", sh)
	switch vh.Choose("k", 8) {
	case 0:
	case 1:
		t = mk(w, false)
	case 2:
		t = mk(w, true)
	case 3:
		t = mk(w, true).Scale(2)
	case 4:
		t = mk(w, true)
		bp(t.Exp(), "reject")
		t.ResetGradContext(vh.Choose("track", 2) == 1)
	case 5: // part of a graph, away from what was back-propagated
		t = mk(w, true)
		u := t.Scale(2)
		bp(t.Scale(3), "reject")
		t = u
	case 6: // an untracked operand of a tracked result
		t = mk(w, false)
		y, err := t.Mul(mk(w, true))
		if good(y, err, "reject") {
			bp(y, "reject")
		}
	case 7: // a gradient has none
		u := mk(w, true)
		bp(u.Scale(2), "reject")
		t = u.Gradient()
	}
	prev := t
	var sn *snap
	if t != nil {
		sn = snapOf(t)
	}
	vh.Assert(o.Update(&t) != nil, "reject: accepted")
	vh.Assert(t == prev, "reject: replaced")
	if sn != nil {
		sn.same("reject")
	}
}

// floating point over the range: the update is the rounded formula
func C17_exact() {
	v := []float64{0, 1, -1, 1e-100, -1e-200, 1e-300, 1e100, -1e200, 0.1, math.Copysign(0, -1)}
	c := func(n string) float64 { return v[vh.Choose(n, len(v))] }
	w, g, lr := c("w"), c("g"), []float64{0, 1, -1, 0.01, 1e-10, 1e10, 1e-100, 1e-250}[vh.Choose("lr", 8)]
	sh := [][]int{{}, {1}, {1, 1}}[vh.Choose("shape", 3)]
	wa, ga := fillA(sh, w), fillA(sh, g)
	t := mk(wa, true)
	if !weighted(t, ga, "exact") {
		return
	}
	old := t
	err := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr}).Update(&t)
	vh.Assert(err == nil, "exact")
	if err != nil {
		return
	}
	want := w - lr*g
	got := read(t).d[0]
	// relative to the operands, however small they are (in the native replay)
	m := maxf(absf(w), absf(lr*g))
	vh.Assert(vh.Symbolic() || absf(got-want) <= 1e-12*m, "exact: rounding")
	vh.Eq(got, want, "exact")
	eqT(old, wa, "exact: previous tensor")
	vh.Assert(sameShape(t.Shape(), sh), "exact: shape")
}
