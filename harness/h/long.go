package h

import (
	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// Many dimensions, many operands, many calls.

// manyRank chooses a shape of 10 to 70 dimensions, all of them of size 1 except
// for two, given with their positions.
func manyRank() (sh []int, i, j int) {
	r := []int{10, 12, 13, 16, 17, 20, 33, 65, 70}[vh.Choose("rank", 9)]
	p := [][2]int{{0, r - 1}, {r - 2, r - 1}, {0, 1}, {1, r / 2}, {r / 2, r - 2}}[vh.Choose("at", 5)]
	sh = make([]int, r)
	for k := range sh {
		sh[k] = 1
	}
	sh[p[0]], sh[p[1]] = 2, 3
	return sh, p[0], p[1]
}

// moveRank is one of the operations that move elements, on that many
// dimensions: the operation, its operands and its result.
func moveRank() (xs []A, f func(t []T) (T, error), w A) {
	sh, i, j := manyRank()
	x := arr("x", sh)
	r := len(sh)
	xs = []A{x}
	ix := make([]tensor.Range, j+1)
	ix[i], ix[j] = rng(1, 2), rng(0, 2)
	switch op := vh.Choose("op", 10); op {
	case 0:
		f, w = func(t []T) (T, error) { return t[0].Reshape([]int{3, 2}) }, A{[]int{3, 2}, x.d}
	case 1:
		f, w = func(t []T) (T, error) { return t[0].Reshape(rev(sh)) }, A{rev(sh), x.d}
	case 2:
		d := []int{0, i, j, r}[vh.Choose("dim", 4)]
		s := append(append(cp(sh[:d]), 1), sh[d:]...)
		f, w = func(t []T) (T, error) { return t[0].UnSqueeze(d) }, A{s, x.d}
	case 3:
		d := []int{0, 2, r - 3, r - 1}[vh.Choose("dim", 4)]
		vh.Assume(sh[d] == 1)
		f, w = func(t []T) (T, error) { return t[0].Squeeze(d) }, A{without(sh, d), x.d}
	case 4:
		d := []int{0, i, j, r - 1}[vh.Choose("dim", 4)]
		s := append(cp(sh[:d]), prod(sh[d:]))
		f, w = func(t []T) (T, error) { return t[0].Flatten(d) }, A{s, x.d}
	case 5:
		f, w = func(t []T) (T, error) { return t[0].Slice(ix) }, sliceA(x, ix)
	case 6:
		ps := cp(sh)
		ps[i], ps[j] = 1, 2
		p := arr("p", ps)
		xs = append(xs, p)
		f, w = func(t []T) (T, error) { return t[0].Patch(ix, t[1]) }, patchA(x, ix, p)
	case 7:
		d := []int{0, i, j, r - 1}[vh.Choose("dim", 4)]
		b := arr("b", sh)
		xs = append(xs, b)
		f, w = func(t []T) (T, error) { return tensor.Concat(t, d) }, concatA(xs, d)
	case 8:
		f, w = func(t []T) (T, error) { return t[0].Transpose() }, transA(x)
	case 9:
		f, w = func(t []T) (T, error) { return t[0].Pow(2), nil }, x.mapf(func(v float64) float64 { return v * v })
	}
	return
}

func C06_ranks() {
	xs, f, w := moveRank()
	ts := make([]T, len(xs))
	for i := range xs {
		ts[i] = mk(xs[i], false)
	}
	o, err := f(ts)
	if !good(o, err, "many dimensions") {
		return
	}
	eqT(o, w, "many dimensions")
	vh.Assert(o.NElems() == len(w.d), "many dimensions: NElems")
	for i := range xs {
		eqT(ts[i], xs[i], "many dimensions: operand unchanged")
	}
}

func C02_ranks() {
	xs, f, _ := moveRank()
	vjp("many dimensions", xs, f)
}

func C05_ranks() {
	sh, i, j := manyRank()
	op := vh.Choose("op", 5)
	x := spaced("x", sh, 0.5)
	switch k := vh.Choose("dim", 5); k {
	case 4:
		checkAll(op, x, mk(x, false), "many dimensions")
	default:
		checkAlong(op, x, mk(x, false), []int{0, i, j, len(sh) - 1}[k], "many dimensions")
	}
}

// pairRank expands one operand, or both.
func pairRank() (a, b, s []int) {
	s, i, j := manyRank()
	a, b = cp(s), cp(s)
	switch vh.Choose("expand", 6) {
	case 1:
		b[j] = 1
	case 2:
		a[i], b[j] = 1, 1
	case 3:
		b = b[j:]
	case 4:
		a, b[i] = a[i+1:], 2
	case 5:
		b = []int{}
	}
	return
}

func C03_ranks() {
	as, bs, _ := pairRank()
	a, b := arr("a", as), arr("b", bs)
	for i := range b.d {
		vh.Assume(b.d[i] != 0)
	}
	op := vh.Choose("op", 4)
	o, err := bin(op, mk(a, false), mk(b, false))
	if good(o, err, "many dimensions") {
		eqT(o, el2(a, b, func(x, y float64) float64 { return binF(op, x, y) }), "many dimensions")
	}
}

func C07_ranks() {
	as, bs, _ := pairRank()
	op := vh.Choose("op", 3)
	vjp("many dimensions", []A{arr("a", as), arr("b", bs)}, func(t []T) (T, error) { return bin(op, t[0], t[1]) })
}

// matRank adds many dimensions in front of matrices or vectors.
func matRank(sfx []int) []int {
	r := []int{0, 1, 8, 12, 17, 33, 65}[vh.Choose("rank", 7)]
	s := make([]int, r)
	for k := range s {
		s[k] = 1
	}
	if r > 0 && vh.Choose("first", 2) == 1 {
		s[0] = 2
	} else if r > 0 {
		s[r-1] = 2
	}
	return append(s, sfx...)
}

func linRank() ([]A, func(t []T) (T, error), A) {
	as, bs := []int{2, 3}, []int{3, 1}
	dot := vh.Choose("op", 2) == 1
	if dot {
		as, bs = as[1:], bs[:1]
	}
	a, b := arr("a", matRank(as)), arr("b", matRank(bs))
	vh.Assume(len(a.sh) > 6 || len(b.sh) > 6)
	if dot {
		return []A{a, b}, func(t []T) (T, error) { return t[0].Dot(t[1]) }, dotA(a, b)
	}
	return []A{a, b}, func(t []T) (T, error) { return t[0].MatMul(t[1]) }, matmulA(a, b)
}

func C04_ranks() {
	xs, f, w := linRank()
	o, err := f([]T{mk(xs[0], false), mk(xs[1], false)})
	if good(o, err, "many dimensions") {
		eqT(o, w, "many dimensions")
	}
}

func C07_ranks_linear() {
	xs, f, _ := linRank()
	vjp("many dimensions", xs, f)
}

// C09_ranks: what is invalid in one place only
func C09_ranks() {
	sh, i, j := manyRank()
	t := mk(fillA(sh, 1.5), vh.Choose("track", 2) == 1)
	sn := snapOf(t)
	r := len(sh)
	var o T
	var err error
	ix := make([]tensor.Range, r)
	other := cp(sh)
	switch vh.Choose("op", 14) {
	case 0:
		ix[j] = rng(1, 4)
		o, err = t.Slice(ix)
	case 1:
		ix[i] = rng(-1, 1)
		o, err = t.Slice(ix)
	case 2:
		o, err = t.Slice(append(ix, rng(0, 1)))
	case 3:
		other[i]++
		o, err = t.Patch(ix, mk(fillA(other, 1), false))
	case 4:
		other[j]--
		o, err = t.Add(mk(fillA(other, 1), false))
	case 5:
		other[j]--
		o, err = tensor.Concat([]T{t, mk(fillA(other, 1), false)}, i)
	case 6:
		o, err = t.Squeeze(j)
	case 7:
		o, err = t.Squeeze(r)
	case 8:
		o, err = t.UnSqueeze(r + 1)
	case 9:
		other[j] = 4
		o, err = t.Reshape(other)
	case 10:
		o, err = t.Flatten(r)
	case 11:
		other[j] = 4
		o, err = t.Broadcast(other)
	case 12:
		o, err = t.SumAlong(r)
	case 13:
		at := make([]int, r)
		at[j] = 3
		_, err = t.At(at...)
	}
	bad(o, err, "many dimensions")
	sn.same("many dimensions: operand")
}

// operandsMany are 7 to 70 tensors to concatenate, the size along the
// dimension in turn 1 and 2.
func operandsMany() (xs []A, ts []T, d int) {
	n := []int{7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 70}[vh.Choose("n", 14)]
	base := [][]int{{1}, {2, 1}, {1, 2}}[vh.Choose("base", 3)]
	d = len(base) - 1
	if base[0] == 1 {
		d = 0
	}
	ph := vh.Choose("sizes", 3)
	for k := 0; k < n; k++ {
		s := cp(base)
		if ph < 2 {
			s[d] = 1 + (k+ph)%2
		}
		x := newA(s)
		for i := range x.d {
			x.d[i] = float64(k) + float64(i)/8
		}
		if k == 0 || k == n-1 || k == n/2 {
			x = arr("x", s)
		}
		xs = append(xs, x)
	}
	return xs, nil, d
}

func C06_many() {
	xs, ts, d := operandsMany()
	for _, x := range xs {
		ts = append(ts, mk(x, false))
	}
	checkConcat(xs, ts, d, "many")
}

func C02_many() {
	xs, ts, d := operandsMany()
	only := vh.Choose("tracked", 4) // all, every other one, the last, one
	tr := func(i int) bool {
		return only == 0 || only == 1 && i%2 == 1 || only == 2 && i == len(xs)-1 || only == 3 && i == len(xs)/2
	}
	for i, x := range xs {
		ts = append(ts, mk(x, tr(i)))
	}
	y, err := tensor.Concat(ts, d)
	if !good(y, err, "many") {
		return
	}
	g := spaced("g", y.Shape(), 1)
	if !weighted(y, g, "many") {
		return
	}
	off := 0
	for i, x := range xs {
		r := make([]tensor.Range, len(x.sh))
		for k := range r {
			r[k] = rng(0, x.sh[k])
		}
		r[d] = rng(off, off+x.sh[d])
		off += x.sh[d]
		if tr(i) {
			gradIs(ts[i], sliceA(g, r), "many")
		} else {
			noGrad(ts[i], "many")
		}
	}
}

func C09_many() {
	xs, ts, d := operandsMany()
	n := len(xs)
	at := []int{0, 1, n / 2, n - 2, n - 1}[vh.Choose("at", 5)]
	k := vh.Choose("wrong", 4)
	for i, x := range xs {
		var t T
		switch {
		case i != at:
			t = mk(x, false)
		case k == 0: // nil
		case k == 1 || len(x.sh) == 1: // of another rank
			t = mk(fillA(append(cp(x.sh), 1), 1), false)
		default: // of another size
			s := cp(x.sh)
			s[1-d] += 5 - 2*k
			if s[1-d] < 1 {
				s[1-d] = 4
			}
			t = mk(fillA(s, 1), false)
		}
		ts = append(ts, t)
	}
	o, err := tensor.Concat(ts, d)
	bad(o, err, "many")
}

// C01_long: one leaf in up to 150 graphs that accumulate, or at 150 places in
// one graph
func C01_long() {
	n := []int{10, 33, 65, 150}[vh.Choose("n", 4)]
	sh := []int{2}
	x := arr("x", sh)
	t := mk(x, true)
	w := newA(sh)
	one := vh.Choose("graphs", 2) == 1
	var sum T
	var ys []T
	for i := 0; i < n; i++ {
		g := A{sh, []float64{float64(i + 1), float64(i % 3)}}
		if i == 0 || i == n-1 {
			g = arr("g", sh)
		}
		w = el2(w, g, func(a, b float64) float64 { return a + b })
		y, err := t.Mul(mk(g, false))
		if !good(y, err, "long") {
			return
		}
		ys = append(ys, y)
		if sum == nil {
			sum = y
		} else if sum, err = sum.Add(y); !good(sum, err, "long") {
			return
		}
	}
	if one {
		ys = []T{sum}
	}
	for _, y := range ys {
		if !bp(y, "long") {
			return
		}
	}
	gradIs(t, w, "long")
	t.ResetGradContext(true)
	noGrad(t, "long: reset")
}

func C12_long() { longLoss(false) }
func C13_long() { longLoss(true) }

func longLoss(grad bool) {
	k := vh.Choose("loss", 3)
	var f interface{ Compute(p, t T) (T, error) }
	switch k {
	case 0:
		f = losses.NewMSE()
	case 1:
		f = losses.NewBCE()
	case 2:
		f = losses.NewCE()
	}
	for i := 0; i < 150; i++ {
		n := 1 + i%3
		sh := []int{n}
		if k == 2 {
			sh = []int{n, 1 + i%2}
		}
		p, t := newA(sh), newA(sh)
		for j := range p.d {
			p.d[j], t.d[j] = float64(1+(i*7+j)%97)/100, float64((i*3+j)%101)/100
		}
		if i%50 == 49 || i == 0 {
			p.d[0] = vh.FloatIn("p", 0.1, 0.9)
		}
		pt := mk(p, grad)
		l, err := f.Compute(pt, mk(t, false))
		if !good(l, err, "long") {
			return
		}
		lossIs(l, k, p, t, "long")
		if grad {
			if !bp(l, "long") {
				return
			}
			gradIs(pt, dLoss(k, p, t), "long")
		}
	}
}

func C14_long() { longAct(false) }
func C15_long() { longAct(true) }

func longAct(grad bool) {
	k := vh.Choose("act", 7)
	m, dim := 0., 0
	if k == aLeakyM {
		m = vh.Float("m")
	}
	f := actOf(k, m, dim)
	for i := 0; i < 150; i++ {
		x := newA([]int{1 + i%3})
		for j := range x.d {
			x.d[j] = float64((i*7+j*5)%61)/16 - 2.03
		}
		if i%50 == 49 || i == 0 {
			x.d[0] = vh.FloatIn("x", 0.1, 0.9)
		}
		t := mk(x, grad)
		y, err := f.Forward(t)
		if !good(y, err, "long") {
			return
		}
		actIs(y, k, x, m, dim, "long")
		if grad {
			g := newA(x.sh)
			for j := range g.d {
				g.d[j] = float64(j + 1 + i%5)
			}
			if !weighted(y, g, "long") {
				return
			}
			actGrad(t, k, x, g, m, dim, A{}, "long")
		}
	}
}

// C16_long: one layer, called and trained 100 times, with its parameters
// replaced in between or not
func C16_long() {
	w, b := arr("w", []int{2}), arr("b", []int{2})
	l := fcOf(mk(w, true), mk(b, true), 2)
	if l == nil {
		return
	}
	mode := vh.Choose("mode", 3) // parameters replaced, kept, or kept for every pass
	sw, sb := newA(w.sh), newA(b.sh)
	add := func(x, y float64) float64 { return x + y }
	var ys []T
	var gs []A
	for i := 0; i < 100; i++ {
		n := 1 + i%3
		x, g := newA([]int{n, 2}), newA([]int{n, 2})
		for j := range x.d {
			x.d[j], g.d[j] = float64((i*7+j)%13)/4-1, float64((i*5+j)%11)/2
		}
		t := mk(x, true)
		y := fcIs(l, t, x, w, b, "long")
		if y == nil || mode < 2 && !weighted(y, g, "long") {
			return
		}
		dx, dw, db := fcGrads(x, w, b, g)
		sw, sb = el2(sw, dw, add), el2(sb, db, add)
		if mode == 2 {
			ys, gs = append(ys, y), append(gs, g)
			continue
		}
		gradIs(t, dx, "long")
		gradIs(l.Weight, sw, "long")
		gradIs(l.Bias, sb, "long")
		if mode == 0 {
			w = w.mapf(func(v float64) float64 { return v + 0.5 })
			l.Weight = mk(w, true)
		} else {
			l.Weight.ResetGradContext(true)
		}
		l.Bias.ResetGradContext(true)
		sw, sb = newA(w.sh), newA(b.sh)
	}
	for i, y := range ys {
		if !weighted(y, gs[i], "long") {
			return
		}
	}
	if mode == 2 {
		gradIs(l.Weight, sw, "long")
		gradIs(l.Bias, sb, "long")
	}
}

// C17_long: one optimizer, 200 updates
func C17_long() {
	o, lr := sgdOf()
	sh := []int{2}
	w := arr("w", sh)
	other := newA([]int{1})
	for i := 0; i < 200; i++ {
		g := A{sh, []float64{float64(1 + i%7), float64(i%5) - 2}}
		t := withGrad(w, g, "long")
		if t == nil || !update(o, &t, w, g, lr, "long") {
			return
		}
		if i%10 == 9 { // a weight of another size
			u := withGrad(other, A{[]int{1}, []float64{1}}, "long")
			if u == nil || !update(o, &u, other, A{[]int{1}, []float64{1}}, lr, "long: other") {
				return
			}
		}
		if i%20 == 19 { // the expressions would grow
			w = arr("w", sh)
		}
	}
}

// distinct states that every element is a draw of its own.
func (seen draws) distinct(s *src, sh []int, label string) {
	label += ": " + s.name
	t, err := s.init(cp(sh))
	if !good(t, err, label) {
		return
	}
	a := read(t)
	vh.Assert(sameShape(a.sh, sh), label+": shape")
	if s.d.kind == "c" {
		eqT(t, fillA(sh, s.d.p), label)
		return
	}
	if !vh.Symbolic() {
		vh.Assert(!repeats(s, sh), label+": fresh draws")
		return
	}
	for _, x := range a.d {
		vh.Assert(vh.DrawKind(x, s.d.kind) == s.d.kind, label+": one draw per element")
		id := vh.DrawID(x)
		vh.Assert(!seen[id], label+": fresh draws")
		seen[id] = true
	}
}

// srcGiven has sources of given parameters.
func srcGiven() *src {
	s := &src{track: true}
	switch vh.Choose("source", 7) {
	case 0:
		return srcOf(2)
	case 1:
		return srcOf(4)
	case 2:
		s.name, s.d, s.init = "RandU", uni(1, 3), func(sh []int) (T, error) { return tensor.RandU(sh, 1, 3, conf(true)) }
	case 3:
		s.name, s.d, s.init = "RandN", normal(1, 2), func(sh []int) (T, error) { return tensor.RandN(sh, 1, 2, conf(true)) }
	case 4:
		x, err := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 4, FanOut: 2})
		vh.Assert(err == nil, "initializer")
		s.name, s.d, s.init = "XavierUniform", uni(-1, 1), x.Init
	case 5:
		x, err := initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 2})
		vh.Assert(err == nil, "initializer")
		s.name, s.d, s.init = "HeNormal", normal(0, 1), x.Init
	case 6:
		v := vh.Float("value")
		s.name, s.d, s.init = "Full", dist{"c", v, 0}, func(sh []int) (T, error) { return tensor.Full(sh, v, conf(true)) }
	}
	return s
}

// C18_long: one source asked 200 times, and for thousands of elements
func C18_long() {
	s := srcGiven()
	seen := draws{}
	for i := 0; i < 200; i++ {
		seen.distinct(s, [][]int{{2}, {1, 3}, {}, {2, 2}}[i%4], "long")
	}
	seen.take(s, []int{2}, "long")
}

func C18_huge() {
	s := srcGiven()
	seen := draws{}
	for _, sh := range [][][]int{{{4100}, {3}, {2}}, {{5, 410}, {70, 30}}, {{70, 70}}, {{10050}}}[vh.Choose("shapes", 4)] {
		seen.distinct(s, sh, "huge")
	}
	seen.take(s, []int{2}, "huge")
}

// C19_many: 200 batches
func C19_many() {
	c := metrics.NewAccuracy()
	m, n := 0, 0
	for i := 0; i < 200; i++ {
		p, t := A{[]int{1 + i%3}, nil}, A{[]int{1 + i%3}, nil}
		for j := 0; j <= i%3; j++ {
			x, y := float64(i%7+j), float64(i%7+j)
			if (i+j)%4 == 1 {
				y += 0.5
			}
			if i%50 == 0 && j == 0 {
				x = vh.Float("p")
				y = label("t", x, true)
			}
			p.d, t.d = append(p.d, x), append(t.d, y)
		}
		vh.Assert(c.Accumulate(mk(p, false), mk(t, false)) == nil, "long")
		m, n = m+matches(p.d, t.d), n+len(p.d)
		if i%8 == 7 {
			resultIs(c, m, n, "long")
		}
	}
	resultIs(c, m, n, "long")
}

// C11_long: 60 steps on one weight
func C11_long() {
	lr := vh.FloatIn("lr", 0.01, 0.1)
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
	sh := []int{2}
	w := arr("w", sh)
	t := mk(w, true)
	for i := 0; i < 60; i++ {
		g := A{sh, []float64{float64(1 + i%7), float64(i%5) - 2}}
		if i%9 == 8 { // a step without a pass
			t.ResetGradContext(true)
			noGrad(t, "long: reset")
		}
		if !weighted(t, g, "long") {
			return
		}
		gradIs(t, g, "long: one step's gradient")
		err := o.Update(&t)
		vh.Assert(err == nil, "long: update")
		if err != nil {
			return
		}
		w = sgdWant(w, g, lr)
		eqT(t, w, "long")
		noGrad(t, "long: updated")
		t.ResetGradContext(true)
	}
}

// meanwhile makes thousands of other tensors, from leaves to results that were
// back-propagated.
func meanwhile() {
	kind := vh.Choose("meanwhile", 5)
	n := []int{300, 1100, 5000}[vh.Choose("made", 3)]
	if kind == 0 && n == 5000 {
		n = 66000
	}
	t := mk(A{[]int{}, []float64{2}}, kind > 1)
	for i := 0; i < n; i++ {
		switch kind {
		case 0, 1:
			_, err := tensor.TensorOf(1.5, conf(kind == 1))
			vh.Assert(err == nil, "meanwhile")
		case 2:
			t.Scale(2)
		case 3:
			t = t.Scale(0.5)
		case 4:
			bp(t.Scale(2), "meanwhile")
			t.ResetGradContext(true)
		}
	}
}

// C08_long and C10_long: tensors in any state, used on after thousands of others
func C08_long() {
	o := inState(vh.Choose("state", nStates), stateVals("x", 0.2))
	meanwhile()
	checkTracked(o.t.Scale(3), o.tracked && !o.spent, []operand{o}, "long")
}

func C10_long() {
	o := inState(vh.Choose("state", nStates), stateVals("x", 0.2))
	sn := snapOf(o.t)
	meanwhile()
	sn.same("long")
	unchangedTracking(o, sn, "long")
}

// C01_deeper: chains of up to 3000 operations, some of them through two ways
func C01_deeper() {
	n := []int{200, 1000, 3000}[vh.Choose("n", 3)]
	two := vh.Choose("ways", 3)
	x := arr("x", []int{})
	t := mk(x, true)
	y, d := t, 1.
	for i := 0; i < n; i++ {
		c := []float64{2, 0.5, -1, 0.25, 4}[i%5]
		z := y.Scale(c)
		d *= c
		if two > 0 && i%(two*two*40) == 3 { // y -> c y + 3 y
			s, err := z.Add(y.Scale(3))
			if !good(s, err, "deep") {
				return
			}
			z = s.Scale(1 / (c + 3))
			d *= 1 / c
		}
		y = z
	}
	if bp(y, "deep") {
		eqT(y, A{[]int{}, []float64{d * x.d[0]}}, "deep")
		gradIs(t, A{[]int{}, []float64{d}}, "deep")
	}
}
