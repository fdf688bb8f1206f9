package h

import (
	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C10: tensors are immutable values decoupled from the caller's slices. Slices
// are overwritten with arbitrary integers, so a library that reads one of them
// again computes with an arbitrary value.

func scribble(s []int) {
	for i := range s {
		s[i] = vh.Int("scribble", -9, 9)
	}
}

// some single entry, or all of them
func scribbleSome(s []int) {
	k := vh.Choose("which", len(s)+1)
	if k == len(s) {
		scribble(s)
	} else {
		s[k] = vh.Int("scribble", -9, 9)
	}
}

func scribbleR(r []tensor.Range) {
	k := vh.Choose("which", len(r)+1)
	for i := range r {
		if k == i || k == len(r) {
			r[i] = rng(vh.Int("from", -9, 9), vh.Int("to", -9, 9))
		}
	}
}

// snap is the observable state of a tensor.
type snap struct {
	t T
	a A
	g T
	s *snap
}

func snapOf(t T) *snap {
	s := &snap{t: t, a: read(t), g: t.Gradient()}
	if s.g != nil {
		s.s = snapOf(s.g)
	}
	return s
}

// same states that nothing observable has changed.
func (s *snap) same(label string) {
	eqT(s.t, s.a, label)
	vh.Assert(s.t.Gradient() == s.g, label+": gradient replaced")
	if s.s != nil {
		s.s.same(label + ": gradient")
	}
}

// value states that shape and elements have not changed (a gradient may have
// been assigned); a gradient handed out earlier keeps its value too.
func (s *snap) value(label string) {
	eqT(s.t, s.a, label)
	if s.s != nil {
		s.s.value(label + ": earlier gradient")
	}
}

// afterwards exercises t: its value, and the gradient of sum(g * t^2 * k).
func afterwards(t T, want A, label string) {
	eqT(t, want, label)
	t.ResetGradContext(true)
	g := arr("g", want.sh)
	y, err := t.Pow(2).Mul(mk(g, false))
	if good(y, err, label) && bp(y, label) {
		w := newA(want.sh)
		for i := range w.d {
			w.d[i] = 2 * want.d[i] * g.d[i]
		}
		gradIs(t, w, label+": gradient")
	}
	if len(want.sh) > 0 {
		u, err := t.SumAlong(0)
		if good(u, err, label) {
			w := newA(without(want.sh, 0))
			for i := range w.d {
				w.d[i] = sumOf(fibre(want, 0, idx(w.sh, i)))
			}
			eqT(u, w, label)
		}
	}
}

func C10_dims() {
	sh := shape("t", 0, pick(3, 4), 3, 8)
	d := cp(sh)
	a := newA(sh)
	var t T
	var err error
	switch vh.Choose("f", 6) {
	case 0:
		v := vh.Float("v")
		t, err = tensor.Full(d, v, conf(true))
		a = fillA(sh, v)
	case 1:
		t, err = tensor.Zeros(d, nil)
	case 2:
		t, err = tensor.Ones(d, nil)
		a = fillA(sh, 1)
	case 3:
		v := vh.Float("v")
		t, err = initializers.NewFull(&initializers.FullConfig{Value: v}).Init(d)
		a = fillA(sh, v)
	case 4:
		s := mk(arr("x", []int{prod(sh)}), false)
		t, err = s.Reshape(d)
		a = A{sh, read(s).d}
	case 5:
		// from a scalar, a single element, the trailing dimensions or ones alone
		var from []int
		switch vh.Choose("from", 4) {
		case 1:
			from = []int{1}
		case 2:
			from = cp(sh[min(1, len(sh)):])
		case 3:
			from = make([]int, len(sh))
			for i := range from {
				from[i] = 1
			}
		}
		o := arr("x", from)
		s := mk(o, false)
		t, err = s.Broadcast(append(d, 1))
		if len(from) < 2 && prod(from) == 1 && !good(t, err, "dims") {
			return
		}
		t, err = s.Broadcast(d)
		if len(from) > len(sh) {
			bad(t, err, "dims")
			return
		}
		a = newA(sh)
		for i := range a.d {
			a.d[i] = o.d[i%len(o.d)]
		}
	}
	if !good(t, err, "dims") {
		return
	}
	if len(d) > 0 {
		scribbleSome(d)
	}
	afterwards(t, a, "dims")
}

func C10_dims_random() {
	sh := shape("t", 1, 3, 2, 2)
	d := cp(sh)
	var t T
	var err error
	switch vh.Choose("f", 5) {
	case 0:
		t, err = tensor.RandU(d, -1, 1, nil)
	case 1:
		t, err = tensor.RandN(d, 0, 1, nil)
	case 2:
		i, _ := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 2, FanOut: 4})
		t, err = i.Init(d)
	case 3:
		i, _ := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 6})
		t, err = i.Init(d)
	case 4:
		i, _ := initializers.NewUniform(nil)
		t, err = i.Init(d)
	}
	if !good(t, err, "random") {
		return
	}
	a := read(t)
	scribbleSome(d)
	afterwards(t, a, "random")
}

func C10_data() {
	var a A
	var t T
	var err error
	tr := vh.Choose("track", 2) == 1
	deep := vh.Choose("deep", 2) == 1
	switch vh.Choose("depth", 4) {
	case 0:
		a = arr("x", []int{1 + vh.Choose("n", 4)})
		v := append([]float64{}, a.d...)
		t, err = tensor.TensorOf(v, conf(tr))
		for i := range v {
			v[i] = vh.Float("scribble")
		}
	case 1:
		a = arr("x", []int{2, 1 + vh.Choose("n", 2)})
		v := [][]float64{append([]float64{}, fibre(a, 1, []int{0})...), append([]float64{}, fibre(a, 1, []int{1})...)}
		t, err = tensor.TensorOf(v, conf(tr))
		if deep {
			v[vh.Choose("i", 2)][vh.Choose("j", a.sh[1])] = vh.Float("scribble")
		} else {
			v[vh.Choose("i", 2)] = nil
		}
	case 2:
		a = arr("x", []int{1, 2, 2})
		v := [][][]float64{{{a.d[0], a.d[1]}, {a.d[2], a.d[3]}}}
		t, err = tensor.TensorOf(v, conf(tr))
		if deep {
			v[0][vh.Choose("i", 2)][vh.Choose("j", 2)] = vh.Float("scribble")
		} else if vh.Choose("l", 2) == 0 {
			v[0] = nil
		} else {
			v[0][1] = []float64{7, 8, 9}
		}
	case 3:
		a = arr("x", []int{2, 1, 1, 2})
		v := [][][][]float64{{{{a.d[0], a.d[1]}}}, {{{a.d[2], a.d[3]}}}}
		t, err = tensor.TensorOf(v, conf(tr))
		if deep {
			v[vh.Choose("i", 2)][0][0][vh.Choose("j", 2)] = vh.Float("scribble")
		} else {
			switch vh.Choose("l", 3) {
			case 0:
				v[1] = nil
			case 1:
				v[1][0] = v[0][0]
			case 2:
				v[0][0][0] = v[1][0][0]
			}
		}
	}
	if good(t, err, "data") {
		afterwards(t, a, "data")
	}
}

// the derivative of an operation does not depend on the caller's slices after
// the forward call
func C10_index() {
	sh := shape("x", 1, 3, 3, 6)
	x := arr("x", sh)
	r := rangesFor("r", sh)
	t := mk(x, true)
	switch vh.Choose("f", 2) {
	case 0:
		y, err := t.Slice(r)
		if !good(y, err, "slice") {
			return
		}
		w := read(y)
		scribbleR(r)
		eqT(y, w, "slice")
		g := arr("g", w.sh)
		z, err := y.Mul(mk(g, false))
		if !good(z, err, "slice") {
			return
		}
		scribbleR(r)
		if bp(z, "slice") {
			gradD(t, x, dotSum(w, g), "slice")
			gradIs(y, g, "slice")
		}
	case 1:
		c := complete(r, sh)
		ps := make([]int, len(sh))
		for i := range ps {
			ps[i] = c[i].To - c[i].From
		}
		p := arr("p", ps)
		u := mk(p, true)
		y, err := t.Patch(r, u)
		if !good(y, err, "patch") {
			return
		}
		w := read(y)
		scribbleR(r)
		eqT(y, w, "patch")
		g := arr("g", w.sh)
		z, err := y.Mul(mk(g, false))
		if good(z, err, "patch") && bp(z, "patch") {
			gradD(t, x, dotSum(w, g), "patch")
			gradD(u, p, dotSum(w, g), "patch source")
		}
	}
	eqT(t, x, "index")
}

// indexes that are shorter than the shape, nil or have spare capacity
func C10_index_capacity() {
	x := arr("x", []int{3, 2})
	t := mk(x, true)
	back := make([]tensor.Range, 3)
	back[0], back[1], back[2] = rng(1, 3), rng(1, 2), rng(5, 6)
	y, err := t.Slice(back[:1])
	if !good(y, err, "capacity") {
		return
	}
	vh.Assert(back[1] == rng(1, 2) && back[2] == rng(5, 6), "capacity: the caller's slice was written")
	w := read(y)
	p := arr("p", []int{2, 2})
	u := mk(p, true)
	q, err := t.Patch(back[:1], u)
	if !good(q, err, "capacity") {
		return
	}
	vh.Assert(back[0] == rng(1, 3) && back[1] == rng(1, 2) && back[2] == rng(5, 6), "capacity: the caller's slice was written")
	wq := read(q)
	scribbleR(back)
	bs := make([]int, 1, 4)
	bs[0] = 6
	v, err := t.Reshape(bs)
	if !good(v, err, "capacity") {
		return
	}
	wv := read(v)
	bs = append(bs, 3)
	bs[0] = vh.Int("scribble", -9, 9)
	eqT(v, wv, "capacity")
	ts := make([]T, 2, 5)
	ts[0], ts[1] = y, u
	c, err := tensor.Concat(ts, 0)
	if !good(c, err, "capacity") {
		return
	}
	wc := read(c)
	ts = append(ts[:1], nil, nil)
	ts[0] = nil
	total := 0.
	var sum T
	for i, o := range []struct {
		t T
		w A
	}{{y, w}, {q, wq}, {v, wv}, {c, wc}} {
		g := arr("g", o.w.sh)
		m, err := o.t.Mul(mk(g, false))
		if !good(m, err, "capacity") {
			return
		}
		m, err = m.Flatten(0)
		if !good(m, err, "capacity") {
			return
		}
		m, err = m.SumAlong(0)
		if !good(m, err, "capacity") {
			return
		}
		total += dotSum(o.w, g)
		if i == 0 {
			sum = m
		} else if sum, err = sum.Add(m); !good(sum, err, "capacity") {
			return
		}
	}
	if bp(sum, "capacity") {
		gradD(t, x, total, "capacity")
		gradD(u, p, total, "capacity")
	}
}

func C10_list() {
	n := 2 + vh.Choose("n", pick(2, 3))
	rank := 1 + vh.Choose("rank", 2)
	dim := vh.Choose("dim", rank)
	xs := make([]A, n)
	ts := make([]T, n)
	for i := range ts {
		s := []int{2, 1}[:rank]
		s = cp(s)
		s[dim] = 1 + vh.Choose("size", 2)
		xs[i] = arr("x", s)
		ts[i] = mk(xs[i], true)
	}
	orig := append([]T{}, ts...)
	list := append([]T{}, ts...)
	y, err := tensor.Concat(list, dim)
	if !good(y, err, "concat") {
		return
	}
	for i := range list {
		vh.Assert(list[i] == orig[i], "concat: the caller's list was written")
	}
	w := read(y)
	other := mk(arr("o", []int{2, 1}[:rank]), true)
	k := vh.Choose("which", n)
	switch vh.Choose("how", 5) {
	case 0:
		list[k] = nil
	case 1:
		list[k] = other
	case 2:
		list[k] = list[(k+1)%n]
	case 3:
		for i := range list {
			list[i] = nil
		}
	case 4:
		for i := 0; i < n/2; i++ {
			list[i], list[n-1-i] = list[n-1-i], list[i]
		}
	}
	eqT(y, w, "concat")
	g := arr("g", w.sh)
	z, err := y.Mul(mk(g, false))
	if good(z, err, "concat") && bp(z, "concat") {
		for i := range orig {
			gradD(orig[i], xs[i], dotSum(w, g), "concat")
		}
		noGrad(other, "concat: stranger")
	}
}

// variadic arguments are slices too
func C10_variadic() {
	x := arrIn("x", []int{2, 2}, 0.1, 4)
	t := mk(x, true)
	ix := []int{1, 0}
	v, err := t.At(ix...)
	vh.Assert(err == nil && ix[0] == 1 && ix[1] == 0, "At: the caller's slice was written")
	scribble(ix)
	vh.Eq(v, x.d[2], "At")
	f, _ := newAct(vh.Choose("act", 4), nil)
	args := []T{t}
	y, err := f.Forward(args...)
	if !good(y, err, "variadic") {
		return
	}
	w := read(y)
	vh.Assert(args[0] == t, "Forward: the caller's slice was written")
	args[0] = nil
	g := arr("g", w.sh)
	z, err := y.Mul(mk(g, false))
	if good(z, err, "variadic") && bp(z, "variadic") {
		gradD(t, x, dotSum(w, g), "variadic")
	}
}

// slices handed out by Shape
func C10_shape_out() {
	a := arr("x", []int{2, 2})
	l := mk(a, true)
	k := vh.Choose("op", nUnary)
	when := vh.Choose("when", 3)
	if when == 0 {
		scribbleSome(l.Shape())
	}
	if k >= 15 && k != 24 {
		for i := range a.d {
			vh.Assume(a.d[i] > 0.1)
			vh.Assume(a.d[i] < 1.5)
		}
	}
	y, err := opUnary(k, l)
	if !good(y, err, "shape") {
		return
	}
	w := read(y)
	if when == 1 {
		scribbleSome(l.Shape())
	} else if s := y.Shape(); len(s) > 0 {
		scribbleSome(s)
	}
	eqT(y, w, "shape")
	eqT(l, a, "shape")
	g := arr("g", w.sh)
	z, err := y.Mul(mk(g, false))
	if !good(z, err, "shape") {
		return
	}
	if s := z.Shape(); len(s) > 0 {
		scribble(s)
	}
	if bp(z, "shape") {
		if !ties(k) {
			gradD(l, a, dotSum(w, g), "shape")
		}
		s := l.Gradient()
		if s != nil {
			o := read(s)
			scribble(s.Shape())
			eqT(s, o, "shape: gradient")
		}
	}
}

// operations whose derivative at ties is left open
func ties(k int) bool { return k == 6 || k == 8 || k == 9 || k == 11 || k == 12 }

// --- no operation changes an existing tensor

func C10_unary() {
	k, s := vh.Choose("op", nUnary), vh.Choose("state", nStates)
	o := inState(s, stateVals("x", 0.2))
	sn := snapOf(o.t)
	y, err := opUnary(k, o.t)
	if !good(y, err, "unary") {
		return
	}
	sn.same("unary")
	sy := snapOf(y)
	// with or without the result taking part in a back-propagation or being reset
	switch vh.Choose("then", 3) {
	case 0:
		unchangedTracking(o, sn, "unary")
	case 1:
		y.ResetGradContext(vh.Bool("to"))
		sn.same("unary: result reset")
		unchangedTracking(o, sn, "unary: result reset")
	case 2:
		if !o.tracked {
			unchangedTracking(o, sn, "unary")
		}
		bp(y, "unary")
		if g := o.t.Gradient(); g != nil {
			vh.Assert(g != y && g != o.t, "unary: a gradient is an operand")
			g.ResetGradContext(true)
		}
	}
	sn.value("unary: afterwards")
	sy.value("unary: afterwards, result")
}

// an operation leaves the tracking of its operand as it was: a later result
// of the operand tracks exactly as before
func unchangedTracking(o operand, sn *snap, label string) {
	z := o.t.Scale(1)
	if o.tracked && !o.spent {
		// not any earlier, as this spends the operand
		bp(z, label)
		vh.Assert(z.Gradient() != nil, label+": tracked operand became untracked")
		for _, s := range o.srcs {
			gradA(s, label+": tracked operand")
		}
		return
	}
	bp(z, label)
	noGrad(z, label+": untracked operand became tracked")
	sn.same(label)
}

func C10_binary() {
	k, s, u := vh.Choose("op", nBinary+8), vh.Choose("state1", nStates), vh.Choose("state2", nStates)
	o, p := inState(s, stateVals("x", 0.2)), inState(u, stateVals("y", 2))
	if (o.derived && p.tracked && !p.spent) || (p.derived && o.tracked && !o.spent) {
		return
	}
	sn, sp := snapOf(o.t), snapOf(p.t)
	var y T
	var err error
	switch {
	case k < nBinary:
		y, err = opBinary(k, o.t, p.t)
	case k == nBinary+6:
		_, err = o.t.Equals(p.t)
	case k == nBinary+7: // a rejected call
		y, err = o.t.Patch([]tensor.Range{rng(1, 3)}, p.t)
		bad(y, err, "binary")
		y, err = nil, nil
	default:
		y, err = cmpT(k-nBinary, o.t, p.t)
	}
	vh.Assert(err == nil, "binary: error")
	sn.same("binary")
	sp.same("binary")
	if y == nil {
		return
	}
	sy := snapOf(y)
	switch vh.Choose("then", 2) {
	case 0:
		if vh.Choose("reset", 2) == 1 {
			y.ResetGradContext(false)
		}
		unchangedTracking(o, sn, "binary")
		unchangedTracking(p, sp, "binary")
	case 1:
		bp(y, "binary")
	}
	sn.value("binary: afterwards")
	sp.value("binary: afterwards")
	sy.value("binary: afterwards, result")
}

func C10_reduce() {
	o := inState(vh.Choose("state", nStates), stateVals("x", 0.2))
	sn := snapOf(o.t)
	o.t.Sum()
	o.t.Max()
	o.t.Min()
	o.t.Avg()
	o.t.Var()
	o.t.Std()
	o.t.Mean()
	o.t.NElems()
	o.t.GradContext()
	o.t.At(0, 1)
	o.t.At(2, 2)
	sn.same("reduce")
}

// components
func C10_component() {
	k := vh.Choose("component", 11)
	s, u := vh.Choose("state1", nStates), 0
	if k < 6 {
		u = vh.Choose("state2", nStates)
	}
	ax, ay := stateVals("x", 0.2), stateVals("y", 2)
	if k == 0 || k == 1 || k == 3 { // of one dimension
		ax.sh, ay.sh = []int{4}, []int{4}
	}
	o, p := inState(s, ax), inState(u, ay)
	if (o.derived && p.tracked && !p.spent) || (p.derived && o.tracked && !o.spent) {
		return
	}
	sn, sp := snapOf(o.t), snapOf(p.t)
	var extra []*snap
	var fc *layers.FC
	var y T
	var err error
	switch k {
	case 0:
		y, err = losses.NewMSE().Compute(o.t, p.t)
	case 1:
		y, err = losses.NewBCE().Compute(o.t, p.t)
	case 3:
		err = metrics.NewAccuracy().Accumulate(o.t, p.t)
		vh.Assert(err == nil, "component: error")
		sn.same("component")
		sp.same("component")
		unchangedTracking(o, sn, "component")
		unchangedTracking(p, sp, "component")
		return
	case 2:
		y, err = losses.NewCE().Compute(o.t, p.t)
	case 4, 5:
		w, e := p.t.SumAlong(0)
		if !good(w, e, "component") {
			return
		}
		l := &layers.FC{Weight: w, Bias: mk(arr("b", []int{2}), true)}
		if k == 5 {
			l.Weight, l.Bias = l.Bias, l.Weight
		}
		extra = append(extra, snapOf(l.Weight), snapOf(l.Bias))
		fc = l
		y, err = l.Forward(o.t)
	default:
		f, _ := newAct([]int{0, 1, 3, 5, 2}[k-6], nil)
		y, err = f.Forward(o.t)
	}
	if !good(y, err, "component") {
		return
	}
	sn.same("component")
	sp.same("component")
	for _, e := range extra {
		e.same("component")
	}
	sy := snapOf(y)
	if vh.Choose("then", 2) == 1 {
		y.ResetGradContext(false)
		unchangedTracking(o, sn, "component")
		unchangedTracking(p, sp, "component")
		if fc != nil { // one of the two is a tracked leaf
			b := fc.Bias
			if k == 5 {
				b = fc.Weight
			}
			unchangedTracking(operand{t: b, tracked: true, srcs: []T{b}}, nil, "component: parameter")
		}
		for _, e := range extra {
			e.value("component: afterwards")
		}
		return
	}
	bp(y, "component")
	sn.value("component: back-propagated")
	sp.value("component: back-propagated")
	sy.value("component: back-propagated result")
	for _, e := range extra {
		e.value("component: back-propagated")
	}
}

// an optimizer step replaces the pointer only
func C10_sgd() {
	a := arr("w", shape("w", 0, 3, 2, 4))
	t := mk(a, true)
	g := arr("g", a.sh)
	y, err := t.Mul(mk(g, false))
	if !good(y, err, "sgd") || !bp(y, "sgd") {
		return
	}
	sn, sy := snapOf(t), snapOf(y)
	w := t
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: vh.Float("lr")})
	vh.Assert(o.Update(&w) == nil, "sgd: error")
	sn.same("sgd")
	sy.same("sgd")
	sw := snapOf(w)
	v := t
	vh.Assert(o.Update(&v) == nil, "sgd: error")
	sn.same("sgd")
	sw.same("sgd")
	w.ResetGradContext(true)
	sn.same("sgd: reset of the new weight")
	z, err := w.Mul(t)
	if good(z, err, "sgd") {
		bp(z, "sgd")
	}
	sn.value("sgd: later use")
	sw.value("sgd: later use")
}

// --- programs: whatever happens later, every tensor made so far keeps its value

func C10_history() {
	var ts []T
	var sn []*snap
	add := func(t T) {
		ts = append(ts, t)
		sn = append(sn, snapOf(t))
	}
	add(mk(arr("x", []int{2}), true))
	add(mk(arr("y", []int{2}), false))
	var handed []*snap // gradients handed out, also those replaced since
	n := pick(3, 4)
	for i := 0; i <= n; i++ {
		kinds := 8
		if i == n {
			kinds = 2
		}
		a := ts[vh.Choose("a", len(ts))]
		var t T
		var err error
		assigned := false
		switch vh.Choose("kind", kinds) {
		case 0:
			err = tensor.BackPropagate(a)
			assigned = true
		case 1:
			if g := a.Gradient(); g != nil {
				t = g
			} else {
				t = a.Scale(2)
			}
		case 2:
			t, err = a.Mul(ts[vh.Choose("b", len(ts))])
		case 3:
			t, err = a.Add(ts[0])
		case 4:
			t, err = a.Patch([]tensor.Range{rng(0, 2)}, ts[1])
		case 5:
			a.ResetGradContext(vh.Choose("track", 2) == 1)
			assigned = true
		case 6:
			if a.Gradient() != nil {
				w := a
				err = optimizers.NewSGD(nil).Update(&w)
				t = w
			}
		case 7:
			t, err = a.UnSqueeze(0)
			if err == nil {
				t, err = t.SumAlong(0)
			}
		}
		_ = err // back-propagating a graph twice may be rejected
		for k := range sn {
			if assigned {
				sn[k].value("history")
				sn[k].g, sn[k].s = ts[k].Gradient(), nil
				if g := sn[k].g; g != nil {
					sn[k].s = snapOf(g)
					handed = append(handed, sn[k].s)
				}
			} else {
				sn[k].same("history")
			}
		}
		for _, s := range handed {
			s.value("history: gradient handed out")
		}
		if t != nil {
			add(t)
		}
	}
}

// gradients handed out before their tensors are reset, and whatever is
// computed afterwards
func C10_reset_gradient() {
	sh := [][]int{{2}, {2, 2}, {}, {1}}[vh.Choose("shape", 4)]
	x, w := arr("x", sh), arr("w", sh)
	t, u := mk(x, true), mk(w, true)
	h := must(t.Mul(u))
	y := must(h.Add(t.Scale(2)))
	if !bp(y, "reset gradient") {
		return
	}
	ts := []T{t, u, h, y}
	var gs []*snap
	for _, t := range ts {
		g := t.Gradient()
		if g == nil {
			return
		}
		gs = append(gs, snapOf(g))
	}
	m, to := vh.Choose("reset", 5), vh.Choose("to", 2) == 1
	for i, t := range ts {
		if m == 4 || m == i {
			t.ResetGradContext(to)
		}
	}
	check := func() {
		for _, s := range gs {
			s.value("reset gradient")
		}
	}
	for i := 0; i < pick(2, 3); i++ {
		a, b := mk(arrIn("a", sh, 0.5, 1), true), mk(arrIn("b", sh, 2, 3), true)
		switch vh.Choose("then", 12) {
		case 0:
			must(a.Add(b))
		case 1:
			must(a.Sub(b))
		case 2:
			must(a.Mul(b))
		case 3:
			must(a.ElMax(b))
		case 4:
			must(a.Eq(b))
		case 5:
			a.Scale(3)
			a.Pow(2)
		case 6:
			must(a.Slice(nil))
			must(a.Reshape(cp(sh)))
			must(a.Broadcast(cp(sh)))
		case 7: // contributions adding up
			bp(must(a.Mul(must(a.Add(b)))), "reset gradient")
		case 8:
			bp(t.Scale(3), "reset gradient")
			bp(t.Scale(2), "reset gradient")
		case 9:
			must(tensor.Full(cp(sh), 7, nil))
			must(tensor.Zeros(cp(sh), nil))
		case 10:
			must(must(a.UnSqueeze(0)).SumAlong(0))
			must(tensor.Concat([]T{must(a.UnSqueeze(0)), must(b.UnSqueeze(0))}, 0))
		case 11:
			v := T(a)
			bp(a.Scale(2), "reset gradient")
			vh.Assert(optimizers.NewSGD(nil).Update(&v) == nil, "reset gradient: update")
		}
		check()
	}
}

// scribbling over every slice of a program before it is back-propagated
func C10_program() {
	x := arr("x", []int{2, 2})
	t := mk(x, true)
	sh := []int{4}
	r := []tensor.Range{rng(1, 3)}
	bs := []int{2, 2}
	l := make([]T, 2)
	y, err := t.Reshape(sh)
	if !good(y, err, "program") {
		return
	}
	z, err := y.Slice(r)
	if !good(z, err, "program") {
		return
	}
	l[0], l[1] = z, y
	c, err := tensor.Concat(l, 0)
	if !good(c, err, "program") {
		return
	}
	m, err := t.Mul(z)
	if !good(m, err, "program") {
		return
	}
	p, err := m.Patch([]tensor.Range{rng(0, 1), {}}, must(t.Slice([]tensor.Range{{}, {}})).(T))
	bad(p, err, "program")
	row, err := t.Slice([]tensor.Range{rng(1, 2)})
	if !good(row, err, "program") {
		return
	}
	pi := []tensor.Range{rng(0, 1), {}}
	p, err = m.Patch(pi, row)
	if !good(p, err, "program") {
		return
	}
	f, err := p.Reshape(sh)
	if !good(f, err, "program") {
		return
	}
	d, err := c.Slice([]tensor.Range{rng(2, 6)})
	if !good(d, err, "program") {
		return
	}
	s, err := f.Mul(d)
	if !good(s, err, "program") {
		return
	}
	w := read(s)
	switch vh.Choose("what", 6) {
	case 0:
		scribble(sh)
	case 1:
		scribbleR(r)
	case 2:
		scribble(bs)
		scribble(t.Shape())
		scribble(s.Shape())
	case 3:
		l[0], l[1] = nil, t
	case 4:
		scribbleR(pi)
	case 5:
		scribble(sh)
		scribbleR(r)
		scribbleR(pi)
		l[0], l[1] = l[1], l[0]
	}
	eqT(s, w, "program")
	g := arr("g", w.sh)
	o, err := s.Mul(mk(g, false))
	if good(o, err, "program") && bp(o, "program") {
		gradD(t, x, dotSum(w, g), "program")
	}
	eqT(t, x, "program")
}

// arguments for which an operation has nothing to do: still the result is a
// tensor of its own, and what is done to it leaves the operand alone
func C10_identity() {
	sh := [][]int{{2, 2}, {1, 1}, {4}, {1}, {}}[vh.Choose("shape", 5)]
	a := arr("x", sh)
	f := vh.Bool("tracked")
	t := mk(a, f)
	whole := make([]tensor.Range, len(sh))
	zero := make([]tensor.Range, len(sh))
	for i := range sh {
		whole[i] = rng(0, sh[i])
	}
	var y T
	var err error
	d := 1. // derivative
	switch vh.Choose("op", 17) {
	case 0:
		y, err = t.Reshape(cp(sh))
	case 1:
		y, err = t.Broadcast(cp(sh))
	case 2:
		y, err = t.Slice(nil)
	case 3:
		y, err = t.Slice(whole)
	case 4:
		y, err = t.Slice(zero)
	case 5:
		y, err = t.Patch(nil, t)
	case 6:
		y, err = t.Patch(whole, mk(a, false))
		d = 0
	case 7:
		y = t.Scale(1)
	case 8:
		y = t.Pow(1)
	case 9:
		vh.Assume(len(sh) == 1)
		y, err = t.Flatten(0)
	case 10:
		vh.Assume(len(sh) == 2)
		y, err = t.Flatten(1)
	case 11:
		vh.Assume(len(sh) == 2 && sh[0] == 1)
		y, err = t.Transpose()
	case 12:
		y, err = t.Add(mk(newA([]int{}), false))
	case 13:
		y, err = t.Mul(mk(fillA(sh, 1), false))
	case 14:
		y, err = t.ElMax(t)
	case 15:
		y, err = layers.NewInput().Forward()
		vh.Assert(err != nil && y == nil, "identity")
		y, err = t.ElMin(t)
	case 16:
		vh.Assume(len(sh) == 2 && sh[0] == 2)
		y, err = t.MatMul(must(tensor.Eye(2, nil)))
	}
	if !good(y, err, "identity") {
		return
	}
	vh.Assert(y != t, "identity: the result is the operand")
	eqT(y, a, "identity")
	sn := snapOf(t)
	o := operand{t: t, tracked: f}
	if f {
		o.srcs = []T{t}
	}
	switch vh.Choose("then", 4) {
	case 0:
		y.ResetGradContext(vh.Bool("to"))
		sn.same("identity")
	case 1: // a back-propagation over the operand alone
		bp(t.Scale(2), "identity")
		noGrad(y, "identity: result left out")
		return
	case 2: // and over the result
		if bp(y, "identity") && f {
			gradIs(t, fillA(sh, d), "identity")
		}
		return
	case 3: // the operand reset
		y.ResetGradContext(true)
		t.ResetGradContext(f)
		bp(y.Scale(1), "identity")
		noGrad(t, "identity")
	}
	unchangedTracking(o, sn, "identity")
	eqT(y, a, "identity")
}
