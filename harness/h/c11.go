package h

import (
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C11: training loops.

// dAct is the gradient of an activation's input x (away from kinks) for an upstream g.
// p are the activations.
func dAct(k int, x, p, g A, m float64, dim int) A {
	if k < 0 {
		return g
	}
	if k == aLeakyNil {
		m = 0.01
	}
	if k == aRelu {
		m = 0
	}
	r := newA(x.sh)
	for i := range r.d {
		switch k {
		case aSigmoid:
			r.d[i] = g.d[i] * p.d[i] * (1 - p.d[i])
		case aTanh:
			r.d[i] = g.d[i] * (1 - p.d[i]*p.d[i])
		case aSoftmax, aSoftmaxNil:
			rx := without(idx(x.sh, i), dim)
			r.d[i] = p.d[i] * (g.d[i] - dotSum(A{d: fibre(p, dim, rx)}, A{d: fibre(g, dim, rx)}))
		default:
			r.d[i] = g.d[i]
			if x.d[i] < 0 {
				r.d[i] *= m
			}
		}
	}
	return r
}

// net is an FC layer, an activation and a loss. MSE and BCE take the
// activations as one list.
type net struct {
	l        *layers.FC
	act      forwarder
	k        int // activation, -1 for none
	m        float64
	dim      int
	loss     int
	w, b     A // what the weights should be
	p        A // the activations of the last forward pass
	fresh    bool
	concrete bool
	region   bool // fix the side of the kink the pre-activations are on
}

// signs fixes the signs of the inputs of a Sigmoid, which decide how a stable
// form of it is computed.
func signs(z A, pat int) {
	for i := range z.d {
		if []int{0, 3, 1, 2}[pat]>>(i%2)&1 == 0 {
			vh.Assume(z.d[i] > 1e-3)
		} else {
			vh.Assume(z.d[i] < -1e-3)
		}
	}
}

func (n *net) flatSh(sh []int) []int {
	if n.loss == 2 {
		return sh
	}
	return []int{prod(sh)}
}

// forward runs the model and states every value on the way.
func (n *net) forward(xt, tt T, x, t A, label string) T {
	z, err := n.l.Forward(xt)
	if !good(z, err, label) {
		return nil
	}
	za := fcWant(x, n.w, n.b)
	eqT(z, za, label+": layer")
	y := z
	if n.k >= 0 {
		if n.k == aSigmoid && !n.concrete {
			pat := 0
			if n.region {
				pat = vh.Choose("signs", pick(3, 4))
			}
			signs(za, pat)
		}
		if n.region && n.k < aSigmoid {
			for i := range za.d {
				if vh.Choose("side", 2) == 0 {
					vh.Assume(za.d[i] > 1e-3)
				} else {
					vh.Assume(za.d[i] < -1e-3)
				}
			}
		}
		if n.fresh {
			n.act = actOf(n.k, n.m, n.dim)
		}
		if y, err = n.act.Forward(z); !good(y, err, label) {
			return nil
		}
	}
	if n.k >= 0 {
		eqT(y, actWant(n.k, za, n.m, n.dim), label+": activation")
	}
	n.p = read(y)
	if n.loss != 2 {
		if y, err = y.Flatten(0); !good(y, err, label) {
			return nil
		}
	}
	l, err := compute(n.loss, y, tt)
	if !good(l, err, label) {
		return nil
	}
	eqT(l, A{[]int{}, []float64{lossWant(n.loss, A{n.flatSh(n.p.sh), n.p.d}, t)}}, label+": loss")
	return l
}

// grads is the derivative of the loss at the current weights, after forward.
func (n *net) grads(x, t A) (dw, db A) {
	z := fcWant(x, n.w, n.b)
	g := dLoss(n.loss, A{n.flatSh(z.sh), n.p.d}, t)
	g = dAct(n.k, z, n.p, A{z.sh, g.d}, n.m, n.dim)
	_, dw, db = fcGrads(x, n.w, n.b, g)
	return
}

// model kinds: activation and loss
var models = [][2]int{
	{-1, 0}, {aRelu, 0}, {aLeakyNil, 0}, {aLeakyM, 0}, {aSigmoid, 0}, {aTanh, 0}, {aSoftmax, 0},
	{aSigmoid, 1}, {aSoftmax, 1}, {aSigmoid, 2}, {aSoftmax, 2}, {aSoftmaxNil, 2},
}

func netOf(kind int, w, b A, in int) *net {
	n := &net{k: models[kind][0], loss: models[kind][1], w: w, b: b}
	if in > 0 {
		n.l = fcOf(mk(w, true), mk(b, true), in)
	} else {
		n.l = &layers.FC{Weight: mk(w, true), Bias: mk(b, true)}
	}
	if n.k == aLeakyM {
		n.m = 0.25
	}
	if n.k == aSoftmax {
		n.dim = vh.Choose("dim", 2)
	}
	if n.k >= 0 {
		n.act = actOf(n.k, n.m, n.dim)
	}
	return n
}

// schedule fixes how the steps are carried out.
type schedule struct {
	fetch  int // pointers fetched once or at each step
	order  int // of updates and resets
	opt    int // one optimizer, one for each parameter, a new one each time
	ps     [2]*T
	os     [2]*optimizers.SGD
	steps  int
	frozen int // 1 the weight, 2 the bias: reset but not updated
}

func scheduleOf(n *net) *schedule {
	k := vh.Choose("schedule", 6)
	s := &schedule{fetch: k % 2, order: []int{0, 1, 2, 3, 0, 2}[k], opt: []int{0, 1, 2, 0, 2, 1}[k]}
	s.ps = ptrs(n.l, "train")
	return s
}

// step trains on one mini-batch.
func (s *schedule) step(n *net, xt, tt T, x, t A, lr float64, label string) bool {
	if s.fetch == 1 {
		s.ps = ptrs(n.l, label)
	}
	l := n.forward(xt, tt, x, t, label)
	if l == nil {
		return false
	}
	noGrad(*s.ps[0], label+": before")
	noGrad(*s.ps[1], label+": before")
	if !bp(l, label) {
		return false
	}
	dw, db := n.grads(x, t)
	gradIs(*s.ps[0], dw, label+": weight gradient")
	gradIs(*s.ps[1], db, label+": bias gradient")
	if s.opt == 2 || s.os[0] == nil {
		c := &optimizers.SGDConfig{LearningRate: lr}
		s.os[0] = optimizers.NewSGD(c)
		s.os[1] = s.os[0]
		if s.opt > 0 {
			s.os[1] = optimizers.NewSGD(c)
		}
	}
	up := func(i int) {
		if s.frozen == i+1 {
			return
		}
		vh.Assert(s.os[i].Update(s.ps[i]) == nil, label+": update")
	}
	re := func(i int) { (*s.ps[i]).ResetGradContext(true) }
	for _, op := range [][]int{{0, 1, 2, 3}, {1, 0, 3, 2}, {0, 2, 1, 3}, {1, 3, 0, 2}}[s.order] {
		if op < 2 {
			up(op)
		} else {
			re(op - 2)
		}
	}
	if s.frozen != 1 {
		n.w = sgdWant(n.w, dw, lr)
	}
	if s.frozen != 2 {
		n.b = sgdWant(n.b, db, lr)
	}
	vh.Assert(n.l.Weight == *s.ps[0] && n.l.Bias == *s.ps[1], label+": pointers")
	eqT(n.l.Weight, n.w, label+": weight")
	eqT(n.l.Bias, n.b, label+": bias")
	// stated equal above, so that the next step may start from these
	if sameShape(n.l.Weight.Shape(), n.w.sh) && sameShape(n.l.Bias.Shape(), n.b.sh) {
		n.w, n.b = read(n.l.Weight), read(n.l.Bias)
	}
	noGrad(n.l.Weight, label+": after")
	noGrad(n.l.Bias, label+": after")
	s.steps++
	return true
}

func (n *net) data(x A, o int, name string) A {
	sh := []int{x.sh[0], o}
	if n.loss == 0 {
		return arr(name, n.flatSh(sh))
	}
	return arrIn(name, n.flatSh(sh), 0.05, 0.95)
}

// one step of every model, everything arbitrary
func C11_one() {
	b, d, o := fcDims(2, 3)
	if b*o > 4 {
		d = 1
	}
	vh.Assume(b*o <= 6)
	kind := vh.Choose("model", len(models))
	w, c, x := arrIn("w", []int{o}, -1, 1), arrIn("b", []int{o}, -1, 1), arrIn("x", []int{b, d}, -1, 1)
	n := netOf(kind, w, c, d)
	n.region = true
	t := n.data(x, o, "t")
	s := &schedule{ps: ptrs(n.l, "one")}
	s.step(n, mk(x, vh.Choose("track", 2) == 1), mk(t, false), x, t, vh.Float("lr"), "one")
}

// two and three steps of a linear model, everything arbitrary
func C11_linear() {
	b, d, o := fcDims(2, 2)
	w, c, x := arr("w", []int{o}), arr("b", []int{o}), arr("x", []int{b, d})
	n := netOf(0, w, c, d)
	s := scheduleOf(n)
	s.frozen = vh.Choose("frozen", 3)
	lr := vh.Float("lr")
	t := n.data(x, o, "t")
	xt, tt := mk(x, false), mk(t, false)
	steps := 2
	if b*d*o <= 2 {
		steps = pick(2, 3)
	}
	again := vh.Choose("same data", 2) == 1
	for i := 0; i < steps; i++ {
		if i > 0 && !again {
			x = arr("x", []int{b, d})
			t = n.data(x, o, "t")
			xt, tt = mk(x, false), mk(t, false)
		}
		if !s.step(n, xt, tt, x, t, lr, "linear") {
			return
		}
	}
}

// a second step of every model: nothing of a first one is left. The first one
// has learning rate zero or a target met exactly, so that the weights are
// arbitrary in the second as well.
func C11_second() {
	b, d, o := 1, 2, 2
	kind := vh.Choose("model", len(models))
	w, c, x := arrIn("w", []int{o}, -1, 1), arrIn("b", []int{o}, -1, 1), arrIn("x", []int{b, d}, -1, 1)
	n := netOf(kind, w, c, 0)
	n.region = true
	t := n.data(x, o, "t")
	s := scheduleOf(n)
	s.opt = 2
	xt, tt := mk(x, false), mk(t, false)
	if !s.step(n, xt, tt, x, t, 0, "second: first step") {
		return
	}
	if vh.Choose("new data", 2) == 1 {
		x = arrIn("x", []int{1, d}, -1, 1)
		t = n.data(x, o, "t")
		xt, tt = mk(x, false), mk(t, false)
	}
	n.fresh = vh.Choose("new activation", 2) == 1
	s.step(n, xt, tt, x, t, vh.Float("lr"), "second")
}

// concrete data, weights along one parameter: the trajectory of every model
func C11_trajectory() {
	kind := vh.Choose("model", len(models))
	if models[kind][0] >= aSoftmax {
		return // the exponents of a second step are beyond the normal form
	}
	o := 2
	v := vh.FloatIn("v", 0.1, 0.2)
	w, c := A{[]int{o}, []float64{v, 0.7}}, A{[]int{o}, []float64{0.1, -0.05}}
	n := netOf(kind, w, c, 0)
	x := A{[]int{2, 2}, []float64{0.5, 0.25, 1, -0.125}}
	t := A{n.flatSh([]int{2, o}), []float64{0.25, 0.75, 0.5, 0.125}}
	s := scheduleOf(n)
	xt, tt := mk(x, false), mk(t, false)
	for i := 0; i < 2; i++ {
		if !s.step(n, xt, tt, x, t, 0.25, "trajectory") {
			return
		}
	}
}

// many steps, every choice in between
func C11_long_exact() {
	kind := vh.Choose("model", len(models))
	size := vh.Choose("size", 3)
	b, d, o := []int{3, 1, 4}[size], []int{2, 1, 3}[size], []int{2, 1, 3}[size]
	w, c := newA([]int{o}), newA([]int{o})
	for j := range w.d {
		w.d[j], c.d[j] = []float64{0.3, -0.7, 0.45, 0.2, -0.15}[j], []float64{0.1, -0.05, 0.2, 0, 0.3}[j]
	}
	n := netOf(kind, w, c, 0)
	n.concrete = true
	s := scheduleOf(n)
	lr := 0.1
	if s.order == 1 {
		lr = -0.05
	}
	mode := vh.Choose("between", 4)
	track := mode%2 == 1
	for i := 0; i < pick(4, 8); i++ {
		x, t := newA([]int{b, d}), newA(n.flatSh([]int{b, o}))
		for j := range x.d {
			x.d[j] = float64((i*5+j*3)%7)/8 + 0.1
		}
		for j := range t.d {
			t.d[j] = float64((i*3+j*5)%6)/8 + 0.1
		}
		xt, tt := mk(x, track), mk(t, false)
		if !s.step(n, xt, tt, x, t, lr, "long") {
			return
		}
		switch mode {
		case 1: // evaluation on the same data
			n.forward(xt, tt, x, t, "long: evaluation")
		case 2: // on data seen in training, with the tensors reset
			xt.ResetGradContext(track)
			n.forward(xt, tt, x, t, "long: evaluation")
		case 3: // other batch sizes
			b = 1 + i%4
		}
	}
}

// leaving out a reset is an error at the next update
func C11_omit_exact() {
	kind := vh.Choose("model", len(models))
	b, d, o := 2, 1, 2
	w, c, x := A{[]int{o}, []float64{0.5, -0.25}}, A{[]int{o}, []float64{0.125, 0.5}}, A{[]int{b, d}, []float64{1, -0.5}}
	lr := 0.125
	if models[kind][0] < 0 {
		w, c, x, lr = arr("w", w.sh), arr("b", w.sh), arr("x", x.sh), vh.Float("lr")
	}
	n := netOf(kind, w, c, 0)
	t := A{n.flatSh([]int{b, o}), []float64{0.25, 0.75, 0.5, 0.125}}
	ps := ptrs(n.l, "omit")
	sgd := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
	xt, tt := mk(x, vh.Choose("track", 2) == 1), mk(t, false)
	run := func() T {
		z, err := n.l.Forward(xt)
		if !good(z, err, "omit") {
			return nil
		}
		if n.k >= 0 {
			if z, err = n.act.Forward(z); !good(z, err, "omit") {
				return nil
			}
		}
		if n.loss != 2 {
			if z, err = z.Flatten(0); !good(z, err, "omit") {
				return nil
			}
		}
		l, err := compute(n.loss, z, tt)
		if !good(l, err, "omit") {
			return nil
		}
		return l
	}
	before := vh.Choose("steps before", 2) // complete steps
	for i := 0; i <= before; i++ {
		l := run()
		if l == nil || !bp(l, "omit") {
			return
		}
		for _, p := range ps {
			vh.Assert(sgd.Update(p) == nil, "omit: update")
		}
		if i < before {
			(*ps[0]).ResetGradContext(true)
			(*ps[1]).ResetGradContext(true)
		}
		xt.ResetGradContext(true)
	}
	// the reset of at least one parameter is left out
	which := vh.Choose("which", 3)
	kindReset := vh.Choose("how", 2)
	for i, p := range ps {
		if which>>i&1 == 1 {
			(*p).ResetGradContext(true)
		} else if kindReset == 1 {
			(*p).ResetGradContext(false) // not tracked
		}
	}
	l := run()
	if l == nil || !bp(l, "omit") {
		return
	}
	for i, p := range ps {
		if which>>i&1 == 1 {
			continue
		}
		prev := *p
		vh.Assert(sgd.Update(p) != nil, "omit: stale update accepted")
		vh.Assert(*p == prev, "omit: replaced")
	}
}

// two layers
func C11_stack() {
	d, h, o := 2, 2, 1+vh.Choose("o", 2)
	k := []int{-1, aTanh, aSigmoid}[vh.Choose("act", 3)]
	w, c := arrIn("w", []int{h}, -1, 1), arrIn("b", []int{h}, -1, 1)
	x := arrIn("x", []int{2, d}, -1, 1)
	l1 := &layers.FC{Weight: mk(w, true), Bias: mk(c, true)}
	v, e := arrIn("v", []int{o}, -1, 1), arrIn("e", []int{o}, -1, 1)
	n := &net{k: -1, w: v, b: e}
	n.l = &layers.FC{Weight: mk(v, true), Bias: mk(e, true)}
	t := n.data(x, o, "t")
	lr := vh.Float("lr")
	sgd := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
	steps := 1 + vh.Choose("steps", 2)
	if steps == 2 {
		if k >= 0 {
			lr = 0
			sgd = optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0})
		} else {
			x, w = A{x.sh, []float64{1, 2, 0.5, -1}}, A{w.sh, []float64{0.5, -2}}
			l1.Weight = mk(w, true)
			if o == 2 {
				v = A{v.sh, []float64{0.25, -0.75}}
				n.w = v
				n.l.Weight = mk(v, true)
			}
			lr = 0.25
			sgd = optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
		}
	}
	pat := 0
	if k == aSigmoid {
		pat = vh.Choose("signs", pick(3, 4))
	}
	xt, tt := mk(x, false), mk(t, false)
	p1, p2 := ptrs(l1, "stack"), ptrs(n.l, "stack")
	ps := []*T{p1[0], p1[1], p2[0], p2[1]}
	for s := 0; s < steps; s++ {
		z, err := l1.Forward(xt)
		if !good(z, err, "stack") {
			return
		}
		za := fcWant(x, w, c)
		if k == aSigmoid {
			signs(za, pat)
		}
		if k >= 0 {
			if z, err = actOf(k, 0, 0).Forward(z); !good(z, err, "stack") {
				return
			}
			eqT(z, actWant(k, za, 0, 0), "stack: activation")
		}
		ya := read(z)
		l := n.forward(z, tt, ya, t, "stack")
		if l == nil || !bp(l, "stack") {
			return
		}
		ga := fcWant(ya, v, e)
		g := dLoss(0, A{t.sh, ga.d}, t)
		dy, dv, de := fcGrads(ya, v, e, A{ga.sh, g.d})
		_, dw, dc := fcGrads(x, w, c, dAct(k, za, ya, dy, 0, 0))
		for i, p := range ps {
			gradIs(*p, []A{dw, dc, dv, de}[i], "stack: gradient")
			vh.Assert(sgd.Update(p) == nil, "stack: update")
		}
		w, c, v, e = sgdWant(w, dw, lr), sgdWant(c, dc, lr), sgdWant(v, dv, lr), sgdWant(e, de, lr)
		for i, p := range ps {
			eqT(*p, []A{w, c, v, e}[i], "stack: weight")
			(*p).ResetGradContext(true)
		}
		w, c, v, e = read(l1.Weight), read(l1.Bias), read(n.l.Weight), read(n.l.Bias)
		n.w, n.b = v, e
	}
}
