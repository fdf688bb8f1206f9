package h

import (
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C08: tracking as a state machine over histories.

type hnode struct {
	t       T
	v       float64
	tracked bool
	spent   bool // has taken part in a back-propagation
	derived bool // untracked because it was computed from a spent tensor
	leaf    bool
	ops     []int // operands, for tracked results
	hasGrad bool
	grad    T // the gradient object seen last
}

type hist struct {
	ns []hnode
}

func (h *hist) add(n hnode) { h.ns = append(h.ns, n) }

func (h *hist) leaf(v float64, track bool) {
	h.add(hnode{t: mk(A{[]int{}, []float64{v}}, track), v: v, tracked: track, leaf: true})
}

// result records the outcome of an operation according to the specification.
// Mixing a tensor that merely descends from a spent one with a tracked one is
// left open by the statement and not explored.
func (h *hist) result(t T, v float64, comparison bool, ops ...int) {
	n := hnode{t: t, v: v}
	spent, der, tr := false, false, false
	for _, o := range ops {
		spent = spent || h.ns[o].spent
		der = der || h.ns[o].derived
		tr = tr || h.ns[o].tracked
	}
	switch {
	case comparison:
		n.derived = spent || der
	case spent:
		n.derived = true
	case der && tr:
		vh.Assume(false)
	case der:
		n.derived = true
	case tr:
		n.tracked, n.ops = true, ops
	}
	n.leaf = !n.tracked
	h.add(n)
}

func (h *hist) reach(r int, in []bool) {
	if in[r] || !h.ns[r].tracked {
		return
	}
	in[r] = true
	for _, o := range h.ns[r].ops {
		h.reach(o, in)
	}
}

func (h *hist) backprop(r int) {
	in := make([]bool, len(h.ns))
	h.reach(r, in)
	for i := range in {
		if in[i] && h.ns[i].spent && !h.ns[i].leaf {
			vh.Assume(false) // (a): a graph is back-propagated once
		}
	}
	bp(h.ns[r].t, "history")
	for i := range in {
		if in[i] {
			h.ns[i].spent, h.ns[i].hasGrad = true, true
			h.ns[i].grad = nil
		}
	}
}

func (h *hist) reset(i int, track bool) {
	for k := range h.ns {
		if h.ns[k].tracked && !h.ns[k].spent {
			for _, o := range h.ns[k].ops {
				if o == i {
					vh.Assume(false) // (b)
				}
			}
		}
	}
	n := &h.ns[i]
	n.t.ResetGradContext(track)
	*n = hnode{t: n.t, v: n.v, tracked: track, leaf: true}
}

func (h *hist) check(label string) {
	for i := range h.ns {
		n := &h.ns[i]
		g := n.t.Gradient()
		vh.Assert((g != nil) == n.hasGrad, label+": gradient presence")
		if g != nil {
			vh.Assert(sameShape(g.Shape(), n.t.Shape()), label+": gradient shape")
			vh.Assert(g.Gradient() == nil, label+": gradient of a gradient")
		}
		if n.grad != nil {
			vh.Assert(g == n.grad, label+": gradient replaced without back-propagation")
		}
		n.grad = g
		v, err := n.t.At()
		vh.Assert(err == nil, label+": value")
		vh.Eq(v, n.v, label+": value")
	}
}

func (h *hist) step(last bool) {
	n := len(h.ns)
	kinds := 4
	if last {
		kinds = 1
	}
	switch vh.Choose("kind", kinds) {
	case 0:
		h.backprop(vh.Choose("root", n))
	case 1:
		b := vh.Choose("b", n)
		a := vh.Choose("a", b+1)
		t := must(h.ns[a].t.Mul(h.ns[b].t))
		h.result(t, h.ns[a].v*h.ns[b].v, false, a, b)
	case 2:
		h.reset(vh.Choose("of", n), vh.Choose("track", 2) == 1)
	case 3:
		a := vh.Choose("a", n)
		t := must(h.ns[a].t.Ge(h.ns[a].t))
		h.result(t, 1, true, a, a)
	}
	h.check("history")
}

func C08_history() {
	h := &hist{}
	h.leaf(vh.Float("x"), true)
	h.leaf(vh.Float("y"), false)
	n := pick(4, 4)
	for i := 0; i < n; i++ {
		h.step(false)
	}
	h.step(true)
}

func C08_T_history5() {
	h := &hist{}
	h.leaf(vh.Float("x"), true)
	for i := 0; i < 5; i++ {
		h.step(false)
	}
	h.step(true)
}

// two rounds of build, back-propagate, reset and build again
func C08_rounds() {
	h := &hist{}
	h.leaf(vh.Float("x"), true)
	h.leaf(vh.Float("y"), true)
	h.leaf(vh.Float("z"), false)
	build := func() {
		n := len(h.ns)
		b := vh.Choose("b", n)
		a := vh.Choose("a", b+1)
		h.result(must(h.ns[a].t.Mul(h.ns[b].t)), h.ns[a].v*h.ns[b].v, false, a, b)
		h.check("rounds")
	}
	build()
	h.backprop(vh.Choose("root", len(h.ns)))
	h.check("rounds")
	switch vh.Choose("reset", 3) {
	case 1:
		h.reset(0, true)
	case 2:
		h.reset(0, true)
		h.reset(1, vh.Choose("track", 2) == 1)
	}
	h.check("rounds")
	build()
	build()
	h.backprop(vh.Choose("root", len(h.ns)))
	h.check("rounds")
}

/* every operation under every state of its operands */

// states of an operand: untracked leaf, tracked leaf, tracked result, spent
// leaf, spent result, reset to tracked, reset to untracked, result of spent, gradient
const nStates = 9

type operand struct {
	t              T
	tracked, spent bool // what an operation sees
	derived        bool
	srcs           []T // tracked tensors behind it (itself included)
}

func inState(s int, a A) operand {
	switch s {
	case 0:
		return operand{t: mk(a, false)}
	case 1:
		t := mk(a, true)
		return operand{t: t, tracked: true, srcs: []T{t}}
	case 2:
		l := mk(a, true)
		t := l.Scale(1)
		return operand{t: t, tracked: true, srcs: []T{t, l}}
	case 3:
		t := mk(a, true)
		bp(t.Scale(2), "state")
		return operand{t: t, spent: true}
	case 4:
		l := mk(a, true)
		t := l.Scale(1)
		bp(t, "state")
		return operand{t: t, spent: true}
	case 5:
		t := mk(a, true)
		bp(t, "state")
		t.ResetGradContext(true)
		return operand{t: t, tracked: true, srcs: []T{t}}
	case 6:
		t := mk(a, true)
		bp(t, "state")
		t.ResetGradContext(false)
		return operand{t: t}
	case 7:
		l := mk(a, true)
		bp(l, "state")
		return operand{t: l.Scale(1), derived: true}
	}
	l := mk(a, true)
	z := must(l.Mul(mk(a, false)))
	bp(z, "state")
	return operand{t: l.Gradient(), derived: true}
}

const nUnary, nBinary = 26, 14

func opUnary(k int, t T) (T, error) {
	switch k {
	case 0:
		return t.Slice([]tensor.Range{rng(0, 1)})
	case 1:
		return t.Transpose()
	case 2:
		return t.Reshape([]int{4})
	case 3:
		return t.UnSqueeze(0)
	case 4:
		u, err := t.Slice([]tensor.Range{rng(0, 1)})
		if err != nil {
			return nil, err
		}
		return u.Squeeze(0)
	case 5:
		return t.Flatten(0)
	case 6:
		return t.Broadcast([]int{2, 2, 2})
	case 7:
		return t.SumAlong(0)
	case 8:
		return t.MaxAlong(0)
	case 9:
		return t.MinAlong(0)
	case 10:
		return t.AvgAlong(0)
	case 11:
		return t.VarAlong(0)
	case 12:
		return t.StdAlong(0)
	case 13:
		return t.MeanAlong(0)
	case 14:
		return t.Scale(2), nil
	case 15:
		return t.Pow(2), nil
	case 16:
		return t.Exp(), nil
	case 17:
		return t.Log(), nil
	case 18:
		return t.Sin(), nil
	case 19:
		return t.Cos(), nil
	case 20:
		return t.Tan(), nil
	case 21:
		return t.Sinh(), nil
	case 22:
		return t.Cosh(), nil
	case 23:
		return t.Tanh(), nil
	case 24:
		return t.Pow(0), nil
	}
	return t.Scale(0), nil
}

func opBinary(k int, a, b T) (T, error) {
	switch k {
	case 0, 1, 2, 3, 4, 5:
		return bin(k, a, b)
	case 6:
		return a.Dot(b)
	case 7:
		return a.MatMul(b)
	case 8:
		s, err := b.Slice(nil)
		if err != nil {
			return nil, err
		}
		return a.Patch(nil, s)
	case 9:
		return a.Patch(nil, b)
	case 10:
		return tensor.Concat([]T{a, b}, 0)
	case 11:
		return tensor.Concat([]T{b, a, b}, 1)
	case 12:
		s, err := b.SumAlong(0) // implicit expansion
		if err != nil {
			return nil, err
		}
		return a.Mul(s)
	}
	return a.Sub(b)
}

// distinct positive numbers in known order
func stateVals(name string, base float64) A {
	a := newA([]int{2, 2})
	for i := range a.d {
		a.d[i] = vh.FloatIn(name, base+float64(i)*0.2, base+float64(i)*0.2+0.1)
	}
	return a
}

func checkTracked(y T, want bool, os []operand, label string) {
	before := []bool{}
	for _, o := range os {
		before = append(before, o.t.Gradient() != nil)
	}
	noGrad(y, label)
	if !bp(y, label) {
		return
	}
	vh.Assert((y.Gradient() != nil) == want, label+": tracked")
	for i, o := range os {
		if want && o.tracked {
			for _, s := range o.srcs {
				gradA(s, label+": operand")
			}
		} else {
			vh.Assert((o.t.Gradient() != nil) == before[i], label+": operand without a part")
		}
	}
	// spent, together with its operands
	if want {
		u := y.Scale(1)
		bp(u, label)
		noGrad(u, label+": computed from a spent tensor")
		for _, o := range os {
			if o.tracked {
				u = o.t.Scale(1)
				bp(u, label)
				noGrad(u, label+": computed from a spent operand")
			}
		}
	}
}

func C08_unary() {
	k, s := vh.Choose("op", nUnary), vh.Choose("state", nStates)
	a := stateVals("x", 0.2)
	o := inState(s, a)
	y, err := opUnary(k, o.t)
	if !good(y, err, "unary") {
		return
	}
	if s == 8 { // values are those of a gradient
		checkTracked(y, false, []operand{o}, "unary")
		return
	}
	p, err := opUnary(k, mk(a, false)) // tracking never changes values
	if good(p, err, "unary") {
		eqT(y, read(p), "unary: value")
	}
	checkTracked(y, o.tracked && !o.spent, []operand{o}, "unary")
}

func C08_binary() {
	k, s, u := vh.Choose("op", nBinary), vh.Choose("state1", nStates), vh.Choose("state2", nStates)
	a, b := stateVals("x", 0.2), stateVals("y", 2)
	o, p := inState(s, a), inState(u, b)
	if (o.derived && p.tracked && !p.spent) || (p.derived && o.tracked && !o.spent) {
		return
	}
	if (s == 8 || u == 8) && (k == 3 || k == 12) {
		return
	}
	y, err := opBinary(k, o.t, p.t)
	if !good(y, err, "binary") {
		return
	}
	if s < 8 && u < 8 {
		q, err := opBinary(k, mk(a, false), mk(b, false))
		if good(q, err, "binary") {
			eqT(y, read(q), "binary: value")
		}
	}
	want := (o.tracked || p.tracked) && !o.spent && !p.spent
	checkTracked(y, want, []operand{o, p}, "binary")
}

// comparisons never track
func C08_compare() {
	k, s, u := vh.Choose("op", 6), vh.Choose("state1", 8), vh.Choose("state2", 8)
	a, b := stateVals("x", 0.2), stateVals("y", 2)
	o, p := inState(s, a), inState(u, b)
	y, err := cmpT(k, o.t, p.t)
	if !good(y, err, "compare") {
		return
	}
	checkTracked(y, false, []operand{o, p}, "compare")
	// an untracked mask takes no gradient but lets the other operand have one
	if o.tracked && !p.spent && !p.derived {
		m := must(y.Mul(o.t))
		bp(m, "mask")
		noGrad(y, "mask")
		gradA(o.t, "mask")
	}
}

// concatenation of three operands with any tracking
func C08_concat() {
	n := 3
	os := make([]operand, n)
	ts := make([]T, n)
	want, spent, der := false, false, false
	for i := range os {
		os[i] = inState(vh.Choose("state", nStates), stateVals("x", 0.2))
		ts[i] = os[i].t
		want = want || os[i].tracked
		spent = spent || os[i].spent
		der = der || os[i].derived
	}
	if der && want && !spent {
		return
	}
	y, err := tensor.Concat(ts, vh.Choose("dim", 2))
	if good(y, err, "concat") {
		checkTracked(y, want && !spent, os, "concat")
	}
}

// gradients are untracked plain values
func C08_gradient() {
	k := vh.Choose("op", nUnary)
	if k == 6 {
		return
	}
	a := stateVals("x", 0.2)
	l := mk(a, true)
	y, err := opUnary(k, l)
	if !good(y, err, "gradient") || !bp(y, "gradient") {
		return
	}
	for _, g := range []T{l.Gradient(), y.Gradient()} {
		if g == nil {
			vh.Assert(false, "gradient: missing")
			return
		}
		noGrad(g, "gradient")
		bp(g, "gradient")
		noGrad(g, "gradient: back-propagated")
		u := g.Scale(3)
		bp(u, "gradient")
		noGrad(u, "gradient: computed from")
	}
}

// tracking flags are symbolic: three leaves under two layers of operations,
// back-propagated, some of them reset, and built upon again
func C08_flags() {
	h := &hist{}
	for i := 0; i < 3; i++ {
		x, f := vh.Float("x"), vh.Bool("tracked")
		t := mk(A{[]int{}, []float64{x}}, f)
		h.add(hnode{t: t, v: x, tracked: f, leaf: true})
	}
	mul := func(a, b int) int {
		t := must(h.ns[a].t.Mul(h.ns[b].t))
		h.result(t, h.ns[a].v*h.ns[b].v, false, a, b)
		return len(h.ns) - 1
	}
	u, v := mul(0, 1), mul(1, 2)
	w := mul(u, v)
	h.check("flags")
	h.backprop([]int{w, u, v, 0}[vh.Choose("root", 4)])
	h.check("flags")
	if vh.Choose("again", 2) == 1 {
		h.result(must(h.ns[w].t.Ge(h.ns[0].t)), 0, true, w, 0)
		h.ns[len(h.ns)-1].v = read(h.ns[len(h.ns)-1].t).d[0]
	}
	for i := 0; i < 3; i++ {
		if h.ns[i].spent && vh.Bool("reset") {
			f := vh.Bool("to")
			h.ns[i].t.ResetGradContext(f)
			h.ns[i] = hnode{t: h.ns[i].t, v: h.ns[i].v, tracked: f, leaf: true}
		}
	}
	h.check("flags")
	a, b := mul(0, 2), mul(1, 0)
	h.check("flags")
	if vh.Choose("second", 2) == 1 {
		h.backprop(a)
	} else {
		h.backprop(b)
	}
	h.check("flags")
}

// ResetGradContext makes a fresh leaf of a tensor in any state
func C08_reset() {
	a := stateVals("x", 0.2)
	s := vh.Choose("state", nStates+4)
	var t T
	var old []T // what the tensor came from
	var err error
	switch {
	case s < nStates:
		o := inState(s, a)
		t = o.t
		for _, u := range o.srcs {
			if u != t {
				old = append(old, u)
			}
		}
	case s == nStates: // a result of a gradient
		l := mk(a, true)
		bp(l.Scale(2), "reset")
		t, old = must(l.Gradient().Add(mk(a, false))), []T{l}
	case s == nStates+1: // a comparison with a spent tensor
		l := mk(a, true)
		bp(l, "reset")
		t, err = l.Ge(l)
		old = []T{l}
	case s == nStates+2: // joins a spent and a tracked tensor
		l, m := mk(a, true), mk(a, true)
		bp(l, "reset")
		t, err = l.Mul(m)
		old = []T{l, m}
	default: // reset before
		t = mk(a, true)
		bp(t.Exp(), "reset")
		t.ResetGradContext(false)
		t.ResetGradContext(true)
		bp(t, "reset")
	}
	if !good(t, err, "reset") {
		return
	}
	v := read(t)
	had := make([]T, len(old))
	for i := range old {
		had[i] = old[i].Gradient()
	}
	f := vh.Bool("to")
	t.ResetGradContext(f)
	noGrad(t, "reset")
	eqT(t, v, "reset: value")
	p := operand{t: t, tracked: f}
	if f {
		p.srcs = []T{t}
	}
	if vh.Choose("binary", 2) == 0 {
		y, err := opUnary([]int{2, 7, 14, 16}[vh.Choose("op", 4)], t)
		if good(y, err, "reset") {
			checkTracked(y, f, []operand{p}, "reset")
		}
	} else {
		k := []int{0, 2, 3, 4, 7, 9, 10}[vh.Choose("op", 7)]
		q := inState(vh.Choose("other", 5), stateVals("y", 20))
		u, w := p, q
		if vh.Choose("swap", 2) == 1 {
			u, w = q, p
		}
		y, err := opBinary(k, u.t, w.t)
		if good(y, err, "reset") {
			checkTracked(y, (f || q.tracked) && !q.spent, []operand{u, w}, "reset")
		}
	}
	for i := range old {
		vh.Assert(old[i].Gradient() == had[i], "reset: reaches the old graph")
	}
	eqT(t, v, "reset: value")
}

// both operands the same tensor
func C08_self() {
	k, s := vh.Choose("op", nBinary+7), vh.Choose("state", nStates)
	a := stateVals("x", 0.2)
	o := inState(s, a)
	var y T
	var err error
	want := o.tracked && !o.spent
	switch {
	case k < nBinary:
		y, err = opBinary(k, o.t, o.t)
	case k < nBinary+6:
		y, err = cmpT(k-nBinary, o.t, o.t)
		want = false
	default:
		y, err = tensor.Concat([]T{o.t, o.t, o.t, o.t}, 1)
	}
	if good(y, err, "self") {
		checkTracked(y, want, []operand{o}, "self")
	}
}
