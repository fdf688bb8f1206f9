package h

import (
	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C20: concurrent computations. vh.Parallel states that the footprints of two
// programs do not conflict: no storage that existed before is written by one
// and touched by the other without a common lock. Programs that pass pairwise
// are free of races in any number and interleaving. Nothing is stated inside
// the programs; their outcomes are compared with a sequential run on copies.

type outcome struct {
	t   T
	v   []float64
	err bool
}

func ofT(t T, err error) outcome { return outcome{t: t, err: err != nil} }
func ofV(v float64, err error) outcome {
	return outcome{v: []float64{v}, err: err != nil}
}
func ofE(err error) outcome { return outcome{err: err != nil} }

func (o outcome) is(want outcome, label string) {
	vh.Assert(o.err == want.err, label+": error")
	vh.Assert((o.t != nil) == (want.t != nil), label+": result")
	if o.t != nil && want.t != nil {
		eqT(o.t, read(want.t), label)
	}
	vh.Assert(len(o.v) == len(want.v), label+": values")
	for i := range o.v {
		if i < len(want.v) {
			vh.Eq(o.v[i], want.v[i], label)
		}
	}
}

const nCalls = nUnary + nBinary + 6 + 29

// call is any forward call on two matrices.
func call(k int, a, b T) outcome {
	if k < nUnary {
		return ofT(opUnary(k, a))
	}
	if k -= nUnary; k < nBinary {
		return ofT(opBinary(k, a, b))
	}
	if k -= nBinary; k < 6 {
		return ofT(cmpT(k, a, b))
	}
	switch k - 6 {
	case 0:
		return ofV(a.Sum(), nil)
	case 1:
		return ofV(a.Max(), nil)
	case 2:
		return ofV(a.Min(), nil)
	case 3:
		return ofV(a.Avg(), nil)
	case 4:
		return ofV(a.Var(), nil)
	case 5:
		return ofV(a.Std(), nil)
	case 6:
		return ofV(a.Mean(), nil)
	case 7:
		return ofV(float64(a.NElems()), nil)
	case 8:
		return ofV(a.At(1, 0))
	case 9:
		s := a.Shape()
		v := []float64{float64(s[0]), float64(s[1])}
		s[0], s[1] = 7, 8 // a copy of our own
		return outcome{v: v}
	case 10:
		e, err := a.Equals(b)
		if e {
			return ofV(1, err)
		}
		return ofV(0, err)
	case 11:
		g := a.Gradient()
		return outcome{t: g}
	case 12:
		return ofT(tensor.Full([]int{2, 2}, 3, nil))
	case 13:
		return ofT(tensor.Zeros([]int{2}, conf(true)))
	case 14:
		return ofT(tensor.Ones([]int{2}, conf(false)))
	case 15:
		return ofT(tensor.Eye(2, conf(false)))
	case 16:
		return ofT(tensor.TensorOf([][]float64{{1, 2}, {3, 4}}, conf(true)))
	case 17:
		return ofT(a.Slice(nil))
	case 18:
		return ofT(a.Slice(rngs(0, 2, 1, 2)))
	case 19:
		return ofT(a.Patch(rngs(1, 2), rowOf(b)))
	case 20: // rejected calls
		return ofT(a.Reshape([]int{3}))
	case 21:
		return ofT(a.MatMul(rowOf(b)))
	case 22:
		return ofT(a.Add(nil))
	case 23:
		return ofT(a.Slice(rngs(0, 9)))
	case 24:
		return ofT(tensor.Concat([]T{a, rowOf(b)}, 1))
	case 25:
		return ofV(a.At(5))
	case 26:
		return ofT(tensor.TensorOf([][]float64{{1, 2}, {3}}, nil))
	case 27:
		return ofT(a.SumAlong(7))
	}
	return ofT(tensor.RandU([]int{2}, 3, 1, nil))
}

func rowOf(t T) T {
	s, err := t.Slice(rngs(0, 1))
	if err != nil {
		return nil
	}
	return s
}

// pairs of states of two shared operands
var c20States = [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 1}, {2, 2}, {3, 0}, {4, 4}, {5, 6}, {7, 8}}

// both runs two programs at once and compares with sequential runs on copies;
// warm: each has run before.
func both(mkf, mkg func() func() outcome, warm bool, label string) {
	if warm {
		mkf()()
		mkg()()
	}
	f, g := mkf(), mkg()
	var of, og outcome
	vh.Parallel(func() { of = f() }, func() { og = g() }, label+": race")
	of.is(mkf()(), label)
	og.is(mkg()(), label)
}

// C20_call: every call concurrently with itself, in every state of the operands.
func C20_call() {
	k := vh.Choose("call", nCalls)
	st := c20States[vh.Choose("state", len(c20States))]
	a, b := stateVals("x", 0.2), stateVals("y", 2)
	sa, sb := inState(st[0], a).t, inState(st[1], b).t
	if vh.Choose("warm", 2) == 1 {
		call(k, sa, sb)
	}
	same := vh.Choose("operands", 2) == 0
	var of, og outcome
	vh.Parallel(func() { of = call(k, sa, sb) }, func() {
		if same {
			og = call(k, sa, sb)
		} else {
			og = call(k, sb, sa)
		}
	}, "call: race")
	ca, cb := inState(st[0], a).t, inState(st[1], b).t
	of.is(call(k, ca, cb), "call")
	if same {
		og.is(call(k, ca, cb), "call")
	} else {
		og.is(call(k, cb, ca), "call")
	}
	if st[0] != 8 {
		eqT(sa, a, "call: operand")
	}
	if st[1] != 8 {
		eqT(sb, b, "call: operand")
	}
}

// C20_pair: every two calls.
func C20_pair() {
	k := vh.Choose("call1", nCalls)
	l := vh.Choose("call2", nCalls)
	if l > k {
		return // the order of the two is chosen by Parallel
	}
	st := c20States[(k+l)%len(c20States)]
	a, b := stateVals("x", 0.2), stateVals("y", 2)
	sa, sb := inState(st[0], a).t, inState(st[1], b).t
	var of, og outcome
	vh.Parallel(func() { of = call(k, sa, sb) }, func() { og = call(l, sb, sa) }, "pair: race")
	ca, cb := inState(st[0], a).t, inState(st[1], b).t
	of.is(call(k, ca, cb), "pair")
	og.is(call(l, cb, ca), "pair")
}

// sized is any call on tensors of any size.
const nSized = 36

func sized(k int, a, b T) outcome {
	n := a.Shape()
	switch {
	case k < 6:
		return ofT(bin(k, a, b))
	case k < 12:
		return ofT(cmpT(k-6, a, b))
	case k < 18:
		return call(nUnary+nBinary+k-6, a, b) // reducers
	case k < 24:
		return ofT(alongT(k-18, a, len(n)-1))
	}
	switch k {
	case 24:
		return ofT(a.Transpose())
	case 25:
		t, err := b.Transpose()
		if err != nil {
			return ofE(err)
		}
		return ofT(a.MatMul(t))
	case 26:
		return ofT(a.Dot(b))
	case 27:
		return ofT(a.Flatten(0))
	case 28:
		return ofT(tensor.Concat([]T{a, b, a}, 0))
	case 29:
		return ofT(a.Slice([]tensor.Range{rng(0, n[0])}))
	case 30:
		return ofT(a.Patch([]tensor.Range{rng(0, n[0])}, b))
	case 31:
		return ofT(a.Broadcast(append([]int{2}, n...)))
	case 32:
		return ofT(a.Reshape([]int{prod(n)}))
	case 33:
		s, err := b.SumAlong(0)
		if err != nil {
			return ofE(err)
		}
		return ofT(a.Add(s))
	case 34:
		return ofT(a.Scale(3), nil)
	}
	return ofT(a.Pow(2), nil)
}

var c20Sizes = [][]int{{1}, {3}, {1, 1}, {7, 5}, {70}, {9, 9}, {2, 3, 4}, {20, 20}, {300}}

// C20_size: calls on smaller and larger tensors, of one or of different sizes.
func C20_size() {
	k := vh.Choose("call", nSized)
	i := vh.Choose("size", len(c20Sizes))
	j := i
	if vh.Choose("other", 2) == 1 {
		j = (i + 3) % len(c20Sizes)
	}
	x, y := c20Sizes[i], c20Sizes[j]
	// concrete operands where there are many elements
	data := func(name string, sh []int, from float64) A {
		if prod(sh) <= 12 {
			return spacedAt(name, sh, 0.2, from)
		}
		a := newA(sh)
		for e := range a.d {
			a.d[e] = from + float64((e*7)%prod(sh))/4
		}
		return a
	}
	a, b, c, d := data("a", x, 1), data("b", x, 3), data("c", y, 2), data("d", y, 4)
	ta, tb, tc, td := mk(a, false), mk(b, true), mk(c, true), mk(d, false)
	var of, og outcome
	vh.Parallel(func() { of = sized(k, ta, tb) }, func() { og = sized(k, tc, td) }, "size: race")
	of.is(sized(k, mk(a, false), mk(b, true)), "size")
	og.is(sized(k, mk(c, true), mk(d, false)), "size")
}

// C20_graph: graphs built at the same time over shared parameters; one of them
// is back-propagated afterwards.
func C20_graph() {
	st := [][2]int{{1, 0}, {1, 1}, {2, 1}, {5, 2}}[vh.Choose("state", 4)]
	a, b := stateVals("x", 0.2), stateVals("y", 2)
	build := func(k, l int, p, q T) outcome {
		y := call(k, p, q)
		if y.t == nil || !sameShape(y.t.Shape(), []int{2, 2}) {
			return y
		}
		return call(l, y.t, p)
	}
	n := pick(10, 40)
	ks := [4]int{}
	for i := range ks {
		switch {
		case i%2 == 0:
			ks[i] = nUnary + vh.Choose("op", nBinary)
		case n == 10:
			ks[i] = []int{1, 7, 11, 14, 16, 26, 28, 32, 33, 35}[vh.Choose("then", n)]
		default:
			ks[i] = vh.Choose("then", n)
		}
		if i == 1 && vh.Choose("same", 2) == 1 {
			ks[2], ks[3] = ks[0], ks[1]
			break
		}
		if i == 1 { // the second program is one of few
			m := vh.Choose("second", 4)
			ks[2], ks[3] = nUnary+[]int{2, 3, 7, 10}[m], []int{14, 26, 28, 16}[m]
			break
		}
	}
	os := [2]operand{inState(st[0], a), inState(st[1], b)}
	var of, og outcome
	vh.Parallel(func() { of = build(ks[0], ks[1], os[0].t, os[1].t) }, func() { og = build(ks[2], ks[3], os[1].t, os[0].t) }, "graph: race")
	cs := [2]operand{inState(st[0], a), inState(st[1], b)}
	var want outcome
	if vh.Choose("root", 2) == 0 {
		want = build(ks[0], ks[1], cs[0].t, cs[1].t)
		of.is(want, "graph")
	} else {
		want = build(ks[2], ks[3], cs[1].t, cs[0].t)
		og.is(want, "graph")
		of = og
	}
	if of.t == nil || want.t == nil || !bp(of.t, "graph") || !bp(want.t, "graph") {
		return
	}
	sameGrads(os[:], cs[:], "graph")
}

func sameGrads(os, cs []operand, label string) {
	for i := range os {
		g, w := os[i].t.Gradient(), cs[i].t.Gradient()
		vh.Assert((g != nil) == (w != nil), label+": gradient presence")
		if g != nil && w != nil {
			eqT(g, read(w), label+": gradient")
		}
	}
}

// C20_backprop: graphs that share untracked tensors are built and
// back-propagated at the same time.
func C20_backprop() {
	k := vh.Choose("op", nUnary+nBinary)
	l := k
	if vh.Choose("other", 2) == 1 {
		l = []int{16, 26 + 2, 26 + 3, 26 + 7, 26 + 8, 26 + 10, 26 + 12, 11}[vh.Choose("second", 8)]
	}
	su := [...]int{0, 6}[vh.Choose("shared", 2)]
	a, b, u := stateVals("x", 0.2), stateVals("y", 4), stateVals("u", 2)
	swap := vh.Choose("swap", 2) == 1
	run := func(k int, p, s T) outcome {
		x, y := p, s
		if swap {
			x, y = s, p
		}
		o := call(k, x, y)
		if o.t == nil {
			return o
		}
		z, err := o.t.Mul(o.t)
		if err != nil {
			return ofE(err)
		}
		if err = tensor.BackPropagate(z); err != nil {
			return ofE(err)
		}
		return outcome{t: p.Gradient(), v: []float64{z.Sum()}}
	}
	pa, pb, ps := mk(a, true), mk(b, true), inState(su, u).t
	before := ps.Gradient()
	var of, og outcome
	vh.Parallel(func() { of = run(k, pa, ps) }, func() { og = run(l, pb, ps) }, "backprop: race")
	cs := inState(su, u).t
	of.is(run(k, mk(a, true), cs), "backprop")
	og.is(run(l, mk(b, true), cs), "backprop")
	vh.Assert(ps.Gradient() == before, "backprop: shared tensor")
	eqT(ps, u, "backprop: shared tensor")
}

// C20_dag: two graphs with reuse, repeated back-propagation after reset.
func C20_dag() {
	u := stateVals("u", 2)
	ps := mk(u, false)
	shapes := [2]int{vh.Choose("dag1", 5), vh.Choose("dag2", 5)}
	as := [2]A{stateVals("x", 0.2), stateVals("y", 4)}
	run := func(k int, p, s T) outcome {
		for round := 0; round < 2; round++ {
			y, err := p.Mul(s)
			if err != nil {
				return ofE(err)
			}
			var z T
			switch k {
			case 0:
				z, err = y.Add(y)
			case 1:
				z, err = y.Mul(p)
			case 2:
				z, err = y.MatMul(p)
			case 3:
				z, err = tensor.Concat([]T{y, s, p}, 1)
			case 4:
				if z, err = y.SumAlong(0); err == nil {
					z, err = z.Mul(p)
				}
			}
			if err == nil {
				err = tensor.BackPropagate(z)
			}
			if err != nil {
				return ofE(err)
			}
			if round == 0 {
				p.ResetGradContext(true)
			}
		}
		return outcome{t: p.Gradient()}
	}
	p, q := mk(as[0], true), mk(as[1], true)
	var of, og outcome
	vh.Parallel(func() { of = run(shapes[0], p, ps) }, func() { og = run(shapes[1], q, ps) }, "dag: race")
	of.is(run(shapes[0], mk(as[0], true), mk(u, false)), "dag")
	og.is(run(shapes[1], mk(as[1], true), mk(u, false)), "dag")
}

// shared is what goroutines share: components and tensors.
type shared struct {
	fc       *layers.FC
	in       *layers.Input
	acts     []forwarder
	x, v, t  T // matrix, vector and class targets
	mse      *losses.MSE
	bce      *losses.BCE
	ce       *losses.CE
	ax, aw   A
	ab, av   A
	tracking bool
}

func sharedOf(ax, aw, ab, av A, state int) *shared {
	s := &shared{ax: ax, aw: aw, ab: ab, av: av}
	s.fc = &layers.FC{Weight: mk(aw, true), Bias: mk(ab, true)}
	s.x, s.v = inState(state, ax).t, mk(av, state == 1)
	s.t = mk(A{[]int{2, 2}, []float64{1, 0, 0, 1}}, false)
	s.in = layers.NewInput()
	x := s.x
	s.in.SeedFunc = func() tensor.Tensor { return x }
	for k := aRelu; k <= aSoftmaxNil; k++ {
		s.acts = append(s.acts, actOf0(k))
	}
	s.mse, s.bce, s.ce = losses.NewMSE(), losses.NewBCE(), losses.NewCE()
	return s
}

func actOf0(k int) forwarder {
	m := 0.3
	f, _ := newAct([...]int{0, 3, 4, 1, 2, 7, 5}[k], &m)
	return f
}

const nComponents = 17

// component evaluates one of the shared components.
func (s *shared) component(k int) outcome {
	switch {
	case k == 0:
		return ofT(s.fc.Forward(s.x))
	case k == 1:
		return ofT(s.in.Forward())
	case k < 9:
		return ofT(s.acts[k-2].Forward(s.x))
	}
	switch k {
	case 9:
		return ofT(s.mse.Compute(s.v, s.v))
	case 10:
		return ofT(s.bce.Compute(s.v, s.v))
	case 11:
		return ofT(s.ce.Compute(s.x, s.t))
	case 12: // the whole network
		y, err := s.fc.Forward(s.x)
		if err != nil {
			return ofE(err)
		}
		if y, err = s.acts[aSoftmaxNil].Forward(y); err != nil {
			return ofE(err)
		}
		return ofT(s.ce.Compute(y, s.t))
	case 13:
		y, err := s.fc.Forward(s.x)
		if err != nil {
			return ofE(err)
		}
		return ofT(s.acts[aSigmoid].Forward(y))
	case 14:
		m := metrics.NewAccuracy()
		if err := m.Accumulate(s.v, s.v); err != nil {
			return ofE(err)
		}
		return ofV(m.Result())
	case 15:
		ws := s.fc.Weights()
		return outcome{t: *ws[0].Value}
	}
	return ofT(s.fc.Forward(s.v)) // rejected
}

func C20_component() {
	k, l := vh.Choose("component1", nComponents), vh.Choose("component2", nComponents)
	if l > k {
		return
	}
	st := vh.Choose("state", 3)
	ax, aw, ab, av := stateVals("x", 0.1), arrIn("w", []int{2}, -1, -0.1), arrIn("b", []int{2}, 0.1, 1), A{[]int{2}, []float64{0.2, 0.6}}
	ax.d[1] = vh.FloatIn("x", -0.5, -0.2)
	if vh.Choose("warm", 2) == 1 {
		w := sharedOf(ax, aw, ab, av, st)
		w.component(k)
		w.component(l)
	}
	s := sharedOf(ax, aw, ab, av, st)
	var of, og outcome
	vh.Parallel(func() { of = s.component(k) }, func() { og = s.component(l) }, "component: race")
	c := sharedOf(ax, aw, ab, av, st)
	of.is(c.component(k), "component")
	og.is(c.component(l), "component")
	// afterwards the graphs are as usual: one of them can be back-propagated
	if of.t != nil && k != 15 && bp(of.t, "component") {
		d := sharedOf(ax, aw, ab, av, st)
		w := d.component(k)
		if w.t != nil && bp(w.t, "component") {
			sameGrads([]operand{{t: s.fc.Weight}, {t: s.fc.Bias}}, []operand{{t: d.fc.Weight}, {t: d.fc.Bias}}, "component")
		}
	}
}

// C20_train: networks of their own, trained at the same time on shared data.
func C20_train() {
	n := vh.Choose("network", 4)
	m := n
	if vh.Choose("other", 2) == 1 {
		m = (n + 1) % 4
	}
	ax := stateVals("x", 0.1)
	x, t := mk(ax, false), mk(A{[]int{2, 2}, []float64{1, 0, 0, 1}}, false)
	vt := mk(A{[]int{4}, []float64{1, 0, 0, 1}}, false)
	aw, ab := arrIn("w", []int{2}, 0.1, 1), arrIn("b", []int{2}, 0.1, 1)
	relu, tanh, soft := actOf0(aRelu), actOf0(aTanh), actOf0(aSoftmaxNil)
	mse, ce := losses.NewMSE(), losses.NewCE()
	opt := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0.125})
	run := func(k int, l *layers.FC) outcome {
		for step := 0; step < 2; step++ {
			for _, w := range l.Weights() {
				(*w.Value).ResetGradContext(true)
			}
			y, err := l.Forward(x)
			if err != nil {
				return ofE(err)
			}
			switch k {
			case 0, 1:
				if k == 1 {
					if y, err = relu.Forward(y); err != nil {
						return ofE(err)
					}
				}
				if y, err = y.Flatten(0); err == nil {
					y, err = mse.Compute(y, vt)
				}
			case 2:
				if y, err = tanh.Forward(y); err != nil {
					return ofE(err)
				}
				if y, err = y.Flatten(0); err == nil {
					y, err = mse.Compute(y, vt)
				}
				step++ // once: the second step leaves the solver's reach
			case 3:
				if y, err = soft.Forward(y); err == nil {
					y, err = ce.Compute(y, t)
				}
				step++
			}
			if err != nil {
				return ofE(err)
			}
			if err = tensor.BackPropagate(y); err != nil {
				return ofE(err)
			}
			for _, w := range l.Weights() {
				if err = opt.Update(w.Value); err != nil {
					return ofE(err)
				}
			}
		}
		b := read0(l.Bias)
		return outcome{t: l.Weight, v: b}
	}
	layer := func() *layers.FC { return &layers.FC{Weight: mk(aw, true), Bias: mk(ab, true)} }
	p, q := layer(), layer()
	var of, og outcome
	vh.Parallel(func() { of = run(n, p) }, func() { og = run(m, q) }, "train: race")
	of.is(run(n, layer()), "train")
	og.is(run(m, layer()), "train")
}

// read0 reads a vector without stating anything.
func read0(t T) []float64 {
	var v []float64
	for i := 0; i < t.Shape()[0]; i++ {
		x, err := t.At(i)
		if err != nil {
			return nil
		}
		v = append(v, x)
	}
	return v
}

// C20_random: random constructors, alone and through shared initializers.
func C20_random() {
	k, l := vh.Choose("source1", nSrc), vh.Choose("source2", nSrc)
	if l > k {
		return
	}
	s := srcOf(k)
	u := s
	if l != k {
		u = srcOf(l)
	}
	warm := vh.Choose("warm", 2) == 1
	if warm {
		s.init([]int{2})
		u.init([]int{3})
	}
	var of, og outcome
	vh.Parallel(func() { of = ofT(s.init([]int{2})) }, func() { og = ofT(u.init([]int{3})) }, "random: race")
	seen := draws{}
	seen.given(s, of, []int{2}, "random")
	seen.given(u, og, []int{3}, "random")
}

// given states about a tensor what take states about a new one.
func (seen draws) given(s *src, o outcome, sh []int, label string) {
	vh.Assert(!o.err && o.t != nil, label+": error")
	if o.t == nil {
		return
	}
	v := *s
	v.init = func([]int) (T, error) { return o.t, nil }
	seen.take(&v, sh, label)
}

// C20_random_mix: a random constructor beside a computation, and building
// layers with the default initializers.
func C20_random_mix() {
	a, b := stateVals("x", 0.2), stateVals("y", 2)
	ta, tb := mk(a, true), mk(b, false)
	k := vh.Choose("source", 6)
	c := []int{7, 16, 28, 33, 36, 46, 49, 58, 61}[vh.Choose("call", 9)]
	random := func() outcome {
		switch k {
		case 0:
			return ofT(tensor.RandU([]int{2}, -1, 1, nil))
		case 1:
			return ofT(tensor.RandN([]int{2}, 0, 1, conf(true)))
		case 2:
			i, err := initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 3})
			if err != nil {
				return ofE(err)
			}
			return ofT(i.Init([]int{2}))
		case 3:
			i, err := initializers.NewUniform(nil)
			if err != nil {
				return ofE(err)
			}
			return ofT(i.Init([]int{2}))
		}
		l, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 2})
		if err != nil {
			return ofE(err)
		}
		if k == 4 {
			return outcome{t: l.Weight}
		}
		return ofT(l.Forward(tb))
	}
	var of, og outcome
	if vh.Choose("twice", 2) == 1 {
		vh.Parallel(func() { of = random() }, func() { og = random() }, "random mix: race")
		vh.Assert(of.t != nil && og.t != nil && !of.err && !og.err, "random mix")
		return
	}
	vh.Parallel(func() { of = random() }, func() { og = call(c, ta, tb) }, "random mix: race")
	vh.Assert(of.t != nil && !of.err, "random mix")
	og.is(call(c, mk(a, true), mk(b, false)), "random mix")
}
