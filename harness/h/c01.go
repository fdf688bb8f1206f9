package h

import (
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C01: back-propagation on operation graphs.

// node of a graph whose nodes compute p*a + q*b + r*a*b element by element
type gnode struct {
	a, b    int // operands, -1 for a leaf
	p, q, r float64
	t       T
	v       A
	tracked bool
	in      []T       // results inside the node
	w       []float64 // their weight in it
}

func must(t T, err error) T {
	vh.Assert(err == nil, "an operation failed")
	if err != nil {
		panic("must")
	}
	return t
}

func leafNode(v A, track bool) gnode {
	return gnode{a: -1, b: -1, t: mk(v, track), v: v, tracked: track}
}

func opNode(ns []gnode, a, b int) gnode {
	n := gnode{a: a, b: b, p: vh.Float("p"), q: vh.Float("q"), r: vh.Float("r"), tracked: ns[a].tracked || ns[b].tracked}
	x, y := ns[a].t.Scale(n.p), ns[b].t.Scale(n.q)
	l := must(x.Add(y))
	z := must(ns[a].t.Mul(ns[b].t))
	m := z.Scale(n.r)
	n.t = must(l.Add(m))
	if ns[a].tracked {
		n.in, n.w = append(n.in, x), append(n.w, 1)
	}
	if ns[b].tracked {
		n.in, n.w = append(n.in, y), append(n.w, 1)
	}
	if n.tracked {
		n.in, n.w = append(n.in, l, z, m), append(n.w, 1, n.r, 1)
	}
	n.v = newA(ns[a].v.sh)
	for i := range n.v.d {
		x, y := ns[a].v.d[i], ns[b].v.d[i]
		n.v.d[i] = n.p*x + n.q*y + n.r*x*y
	}
	return n
}

// adjoints of the sum of the root's elements with respect to every node
func adjoints(ns []gnode, root int) []A {
	ad := make([]A, len(ns))
	for i := range ad {
		ad[i] = newA(ns[i].v.sh)
	}
	for i := range ad[root].d {
		ad[root].d[i] = 1
	}
	for k := root; k >= 0; k-- {
		n := ns[k]
		if n.a < 0 {
			continue
		}
		for i := range n.v.d {
			x, y := ns[n.a].v.d[i], ns[n.b].v.d[i]
			g := ad[k].d[i]
			ad[n.a].d[i] += g * (n.p + n.r*y)
			ad[n.b].d[i] += g * (n.q + n.r*x)
		}
	}
	return ad
}

func below(ns []gnode, root int) []bool {
	r := make([]bool, len(ns))
	r[root] = true
	for k := root; k >= 0; k-- {
		if r[k] && ns[k].a >= 0 {
			r[ns[k].a], r[ns[k].b] = true, true
		}
	}
	return r
}

func checkGraph(ns []gnode, root int, label string) {
	if !bp(ns[root].t, label) {
		return
	}
	ad := adjoints(ns, root)
	in := below(ns, root)
	for k := range ns {
		if in[k] && ns[k].tracked && ns[root].tracked {
			gradIs(ns[k].t, ad[k], label)
			for i, t := range ns[k].in {
				w := ns[k].w[i]
				gradIs(t, ad[k].mapf(func(g float64) float64 { return w * g }), label+": inside")
			}
		} else {
			noGrad(ns[k].t, label)
		}
		eqT(ns[k].t, ns[k].v, label+": value")
	}
}

func dag(nops int, sh []int) ([]gnode, int) {
	mask := 1 + vh.Choose("tracked", 3)
	ns := []gnode{leafNode(arr("x", sh), mask&1 == 1), leafNode(arr("y", sh), mask&2 == 2)}
	for i := 0; i < nops; i++ {
		b := vh.Choose("b", len(ns))
		a := vh.Choose("a", b+1)
		if i == nops-1 && b != len(ns)-1 { // the last operation uses the one before
			vh.Assume(false)
		}
		ns = append(ns, opNode(ns, a, b))
	}
	return ns, len(ns) - 1
}

// every graph of up to four operations over two leaves
func C01_dag() {
	ns, root := dag(1+vh.Choose("ops", pick(4, 4)), []int{})
	checkGraph(ns, root, "dag")
}

// roots inside the graph
func C01_dag_root() {
	ns, _ := dag(2+vh.Choose("ops", 2), []int{2})
	checkGraph(ns, vh.Choose("root", len(ns)), "dag root")
}

func C01_T_dag5() {
	ns, root := dag(5, []int{})
	checkGraph(ns, root, "dag5")
}

// two graphs over the same leaves, back-propagated in either order
func C01_shared_leaves() {
	x, y := arr("x", []int{2}), arr("y", []int{2})
	mask := 1 + vh.Choose("tracked", 3)
	l := []gnode{leafNode(x, mask&1 == 1), leafNode(y, mask&2 == 2)}
	n := 2 + vh.Choose("graphs", 2)
	gs := make([][]gnode, n)
	ops := 2
	if n == 3 {
		ops = 1
	}
	for g := range gs {
		gs[g] = append([]gnode{}, l...)
		for i := 0; i < ops; i++ {
			b := vh.Choose("b", len(gs[g]))
			a := vh.Choose("a", b+1)
			if i == ops-1 && b != len(gs[g])-1 && ops > 1 {
				vh.Assume(false)
			}
			gs[g] = append(gs[g], opNode(gs[g], a, b))
		}
	}
	order := vh.Choose("order", 2)
	want := []A{newA(x.sh), newA(x.sh)}
	has := []bool{false, false}
	for i := range gs {
		g := gs[i]
		if order == 1 {
			g = gs[n-1-i]
		}
		root := len(g) - 1
		if !bp(g[root].t, "shared leaves") {
			return
		}
		ad := adjoints(g, root)
		in := below(g, root)
		for k := range g {
			if k < 2 {
				if in[k] && g[root].tracked && g[k].tracked {
					has[k] = true
					want[k] = el2(want[k], ad[k], func(a, b float64) float64 { return a + b })
				}
			} else if in[k] && g[k].tracked && g[root].tracked {
				gradIs(g[k].t, ad[k], "shared leaves: interior")
			}
		}
		for k := 0; k < 2; k++ {
			if has[k] {
				gradIs(g[k].t, want[k], "shared leaves")
			} else {
				noGrad(g[k].t, "shared leaves")
			}
		}
	}
}

// the root may be a leaf; a leaf back-propagated on its own adds ones
func C01_leaf_root() {
	x := arr("x", []int{2})
	l := leafNode(x, true)
	g := []gnode{l, l}
	g = append(g, opNode(g, 0, 0))
	first := vh.Choose("first", 2)
	for i := 0; i < 2; i++ {
		if (i == 0) == (first == 0) {
			bp(l.t, "leaf root")
		} else {
			bp(g[2].t, "leaf root")
		}
	}
	w := newA(x.sh)
	for i := range w.d {
		w.d[i] = 1 + g[2].p + g[2].q + 2*g[2].r*x.d[i]
	}
	gradIs(l.t, w, "leaf root")
}

// depth: chains, diamonds and ladders must finish, with the right derivative
func C01_deep() {
	kind := vh.Choose("kind", 5)
	n := []int{40, 40, 200, 30, 12}[kind]
	x := arr("x", []int{})
	t := mk(x, true)
	var d float64
	y := t
	switch kind {
	case 0: // y <- y + y
		d = 1
		for i := 0; i < n; i++ {
			y = must(y.Add(y))
			d *= 2
		}
	case 1: // y(n) <- y(n-1) + y(n-2)
		z := t
		d = 1
		e := 1.
		for i := 0; i < n; i++ {
			w := must(y.Add(z))
			z, y = y, w
			e, d = d, d+e
		}
	case 2: // a long line
		d = 1
		for i := 0; i < n; i++ {
			y = y.Scale(-1)
		}
	case 3: // y <- c*y - y/2
		d = 1
		c := vh.Float("c")
		for i := 0; i < 6; i++ {
			y = must(y.Scale(c).Sub(y.Scale(0.5)))
			d *= c - 0.5
		}
		for i := 0; i < n; i++ {
			y = must(y.Scale(2).Sub(y))
		}
	case 4: // y <- the sum of four uses of y
		d = 1
		for i := 0; i < n; i++ {
			u := must(y.UnSqueeze(0))
			y = must(must(tensor.Concat([]T{u, u, u, u}, 0)).SumAlong(0))
			d *= 4
		}
	}
	if bp(y, "deep") {
		gradIs(t, A{[]int{}, []float64{d}}, "deep")
	}
}

// wide fan-out of an interior tensor
func C01_fanout() {
	k := []int{2, 3, 4, 5, 6, 7, 40, 130}[vh.Choose("k", 8)]
	x := arr("x", []int{2})
	t := mk(x, true)
	m := must(t.Mul(t))
	cs := make([]float64, k)
	var s T
	tot := 0.
	rev := vh.Choose("rev", 2) == 1
	for i := range cs {
		cs[i] = vh.Float("c")
		tot += cs[i]
		u := m.Scale(cs[i])
		switch {
		case s == nil:
			s = u
		case rev:
			s = must(u.Add(s))
		default:
			s = must(s.Add(u))
		}
	}
	late := vh.Choose("late", 2) == 1
	if late { // one more consumer of the source
		s = must(s.Add(t))
	}
	if !bp(s, "fanout") {
		return
	}
	gm, gt := newA(x.sh), newA(x.sh)
	for i := range gt.d {
		gm.d[i] = tot
		gt.d[i] = tot * 2 * x.d[i]
		if late {
			gt.d[i]++
		}
	}
	gradIs(m, gm, "fanout: interior")
	gradIs(t, gt, "fanout")
}

/* graphs of different operations, against the symbolic derivative */

const nMixed = 16

// mixed applies the k-th operation to two tensors of shape [2,2], giving [2,2]
func mixed(k int, a, b T, c A) (T, error) {
	switch k {
	case 0:
		return a.Add(b)
	case 1:
		return a.Sub(b)
	case 2:
		return a.Mul(b)
	case 3:
		return a.MatMul(b)
	case 4:
		return a.Transpose()
	case 5:
		return a.Sin(), nil
	case 6: // row sums broadcast against b
		s, err := a.SumAlong(1)
		if err != nil {
			return nil, err
		}
		return s.Mul(b)
	case 7: // halves exchanged
		s, err := a.Slice([]tensor.Range{rng(1, 2)})
		if err != nil {
			return nil, err
		}
		u, err := b.Slice([]tensor.Range{rng(0, 1)})
		if err != nil {
			return nil, err
		}
		return tensor.Concat([]T{s, u}, 0)
	case 8:
		s, err := b.Slice([]tensor.Range{{}, rng(0, 1)})
		if err != nil {
			return nil, err
		}
		return a.Patch([]tensor.Range{{}, rng(1, 2)}, s)
	case 9: // dot products as a column
		d, err := a.Dot(b)
		if err != nil {
			return nil, err
		}
		if d, err = d.UnSqueeze(1); err != nil {
			return nil, err
		}
		return d.Sub(a)
	case 10:
		f, err := a.Flatten(0)
		if err != nil {
			return nil, err
		}
		g, err := b.Reshape([]int{4})
		if err != nil {
			return nil, err
		}
		h, err := f.Mul(g)
		if err != nil {
			return nil, err
		}
		return h.Reshape([]int{2, 2})
	case 11:
		v, err := a.VarAlong(0)
		if err != nil {
			return nil, err
		}
		return b.Sub(v)
	case 12:
		return a.Scale(c.d[0]).Pow(2), nil
	case 13:
		m, err := a.MeanAlong(1)
		if err != nil {
			return nil, err
		}
		if m, err = m.UnSqueeze(1); err != nil {
			return nil, err
		}
		return m.Add(b.Scale(c.d[1]))
	case 14:
		return a.Pow(3), nil
	}
	u, err := b.UnSqueeze(0)
	if err != nil {
		return nil, err
	}
	if u, err = a.Mul(u); err != nil {
		return nil, err
	}
	return u.Squeeze(0)
}

func C01_mixed() {
	sh := []int{2, 2}
	x := arr("x", sh)
	y := newA(sh) // two free elements keep the terms small
	y.d[0], y.d[1], y.d[2], y.d[3] = vh.Float("y"), 2, -1, vh.Float("y")
	c := arr("c", []int{2})
	w := A{sh, []float64{1, vh.Float("w"), -2, 3}}
	mask := 1 + vh.Choose("tracked", 2)*2
	tx, ty := mk(x, mask&1 == 1), mk(y, mask&2 == 2)
	k1 := vh.Choose("op1", nMixed)
	n1 := must(mixed(k1, tx, ty, c))
	second := func(k int) bool { return k != 4 && k != 5 && k != 12 && k != 14 }
	usesX, usesY, usesN := false, false, true // apart from the uses through n1
	k2, s2 := vh.Choose("op2", nMixed), vh.Choose("s2", 3)
	var n2 T
	switch s2 {
	case 0:
		n2 = must(mixed(k2, n1, n1, c))
	case 1:
		n2 = must(mixed(k2, n1, tx, c))
		usesX = second(k2)
	case 2:
		n2 = must(mixed(k2, ty, n1, c))
		usesY, usesN = true, second(k2)
	}
	var n3 T
	switch vh.Choose("n3", pick(4, 6)) {
	case 0:
		n3 = must(n2.Add(n1))
		usesN = true
	case 1:
		n3 = must(n1.Mul(n2))
		usesN = true
	case 2:
		n3 = must(n2.Sub(tx))
		usesX = true
	case 3:
		n3 = must(ty.Mul(n2))
		usesY = true
	case 4:
		n3 = must(n1.MatMul(n2))
		usesN = true
	case 5:
		n3 = must(mixed(9, n2, n1, c))
		usesN = true
	}
	usesX, usesY = usesX || usesN, usesY || usesN && second(k1)
	z := must(n3.Mul(mk(w, false)))
	total := dotSum(read(n3), w)
	if !bp(z, "mixed") {
		return
	}
	if n3.Gradient() != nil {
		gradIs(n3, w, "mixed: interior")
	}
	grad0(usesX, tx, x, total, "mixed", 0, 1, 2, 3)
	grad0(usesY && mask&2 == 2, ty, y, total, "mixed", 0, 3)
}

// grad0 is gradD on some elements of a tensor that the graph may not have used.
func grad0(used bool, t T, x A, total float64, label string, at ...int) {
	if !used {
		noGrad(t, label)
		return
	}
	g, ok := gradA(t, label)
	if !ok {
		return
	}
	for _, i := range at {
		vh.Eq(g.d[i], vh.Deriv(total, x.d[i]), label)
	}
}

// smooth and piecewise operations in one graph, on known sides of their kinks
func C01_mixed_scalar() {
	x := A{[]int{}, []float64{vh.FloatIn("x", 0.5, 3)}}
	y := A{[]int{}, []float64{vh.FloatIn("y", 4, 9)}}
	tx, ty := mk(x, true), mk(y, true)
	f := func(k int, a, b T) (T, error) {
		switch k {
		case 0:
			return a.Exp(), nil
		case 1:
			return a.Mul(a.Log())
		case 2:
			return a.Div(b)
		case 3:
			return a.Tanh(), nil
		case 4:
			return a.ElMax(b)
		case 5:
			return b.ElMin(a)
		case 6:
			return a.Cos().Mul(b)
		case 7:
			return a.Sinh(), nil
		case 8:
			return a.Cosh().Sub(b)
		case 9:
			return a.Pow(-1), nil
		case 10:
			return a.Pow(0).Sub(b)
		}
		return a.Pow(2.5), nil
	}
	second := func(k int) bool { return k != 0 && k != 1 && k != 3 && k != 7 && k != 9 && k != 11 }
	k1 := vh.Choose("op1", 12)
	n1 := must(f(k1, tx, ty))
	usesY := second(k1)
	a1, _ := n1.At()
	vh.Assume(a1 > 0.01 && a1 < 30)
	k2 := vh.Choose("op2", 12)
	var n2 T
	if vh.Choose("s2", 2) == 0 {
		if k2 == 4 || k2 == 5 {
			vh.Assume(a1-x.d[0] > 1e-3 || x.d[0]-a1 > 1e-3)
		}
		n2 = must(f(k2, n1, tx))
	} else {
		if k2 == 4 || k2 == 5 {
			vh.Assume(a1-y.d[0] > 1e-3 || y.d[0]-a1 > 1e-3)
		}
		n2 = must(f(k2, ty, n1))
		usesY = true
	}
	n3 := must(n2.Mul(n1))
	n4 := must(n3.Sub(n2))
	total, _ := n4.At()
	if !bp(n4, "mixed scalar") {
		return
	}
	grad0(true, tx, x, total, "mixed scalar", 0)
	grad0(usesY, ty, y, total, "mixed scalar", 0)
}

// an operation whose operands are one tensor, a leaf or a result
func C01_self() {
	k := vh.Choose("op", nBinary)
	x := stateVals("x", 0.2)
	l := mk(x, true)
	t := l
	if vh.Choose("interior", 2) == 1 {
		t = l.Scale(3)
	}
	y, err := opBinary(k, t, t)
	if !good(y, err, "self") {
		return
	}
	v := read(y)
	w := arr("w", v.sh)
	z := must(y.Mul(mk(w, false)))
	if !bp(z, "self") {
		return
	}
	gradIs(y, w, "self: result")
	if k == 4 || k == 5 { // the extremum of a tensor and itself is the tensor
		gradIs(t, w, "self")
	}
	if t != l {
		gradA(t, "self: operand")
	}
	if k != 4 && k != 5 {
		gradD(l, x, dotSum(v, w), "self")
	}
}

// an operation that changes no element, its result and its operand both used
// again: they are two tensors of the graph with a gradient each
func C01_neutral() {
	sh := []int{2, 2}
	x := arr("x", sh)
	t := mk(x, true)
	h := t.Scale(3)
	v := x.mapf(func(e float64) float64 { return 3 * e })
	var y T
	switch vh.Choose("op", 14) {
	case 0:
		y = h.Scale(1)
	case 1:
		y = h.Pow(1)
	case 2:
		y = must(h.Reshape([]int{2, 2}))
	case 3:
		y = must(h.Broadcast([]int{2, 2}))
	case 4:
		y = must(h.Slice(nil))
	case 5:
		y = must(h.Slice(rngs(0, 2, 0, 2)))
	case 6:
		y = must(h.Flatten(1))
	case 7:
		y = must(h.Mul(mk(fillA(sh, 1), false)))
	case 8:
		y = must(h.Add(mk(newA(sh), false)))
	case 9:
		y = must(h.Sub(mk(newA([]int{}), false)))
	case 10:
		y = must(h.Div(mk(fillA([]int{1}, 1), false)))
	case 11:
		y = must(must(h.UnSqueeze(0)).Squeeze(0))
	case 12:
		y = must(h.MatMul(must(tensor.Eye(2, nil))))
	case 13:
		y = must(must(h.UnSqueeze(1)).SumAlong(1))
	}
	eqT(y, v, "neutral")
	g := arr("g", sh)
	var z T
	gh, gy := newA(sh), newA(sh)
	switch vh.Choose("use", 3) {
	case 0: // h*y + g*y
		z = must(must(h.Mul(y)).Add(must(y.Mul(mk(g, false)))))
		for i := range v.d {
			gy.d[i] = v.d[i] + g.d[i]
			gh.d[i] = v.d[i] + gy.d[i]
		}
	case 1: // y*(g*h)
		z = must(y.Mul(must(h.Mul(mk(g, false)))))
		for i := range v.d {
			gy.d[i] = v.d[i] * g.d[i]
			gh.d[i] = 2 * gy.d[i]
		}
	case 2: // g*y alone
		z = must(y.Mul(mk(g, false)))
		gy = g
		gh = g
	}
	if !bp(z, "neutral") {
		return
	}
	gradIs(y, gy, "neutral: result")
	gradIs(h, gh, "neutral: operand")
	gradIs(t, gh.mapf(func(e float64) float64 { return 3 * e }), "neutral: leaf")
}
