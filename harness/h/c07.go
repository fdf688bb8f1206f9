package h

import (
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C07: the gradient of a broadcast operand is the sum over its copies.

func C07_arith() {
	op := vh.Choose("op", 4)
	sa, sb, _ := bcPair("p", pick(3, 4), 3, pick(6, 9))
	if sameShape(sa, sb) {
		return
	}
	a, b := arr("a", sa), arr("b", sb)
	if op == 3 {
		nonzero(b)
	}
	vjp(binName[op], []A{a, b}, func(t []T) (T, error) { return bin(op, t[0], t[1]) })
}

func C07_arith_rank() {
	op := vh.Choose("op", 2) * 2
	sa, sb, _ := bcPair("p", pick(5, 6), 2, pick(8, 16))
	if len(sa) < 4 && len(sb) < 4 {
		return
	}
	vjp(binName[op]+" rank", []A{arr("a", sa), arr("b", sb)}, func(t []T) (T, error) { return bin(op, t[0], t[1]) })
}

func C07_arith_large() {
	ps := [][2][]int{
		{{7, 5}, {5}}, {{7, 1}, {1, 5}}, {{5}, {7, 1}}, {{3, 1, 4}, {2, 1}}, {{4, 3, 2}, {3, 1}}, {{2, 1, 3, 1}, {4, 1, 5}},
		{{40}, {1}}, {{}, {6, 7}}, {{1, 1, 1}, {9}}, {{1, 2, 1, 2, 1, 2}, {2, 1, 2, 1, 2, 1}}, {{65, 2}, {2}}, {{2, 40}, {2, 1}}, {{10, 1}, {1, 13}},
		{{1}, {}}, {{1, 1}, {3, 1}}, {{6, 1, 2, 1, 2}, {2, 1}}, {{260}, {1}}, {{130, 2}, {2}}, {{2, 130}, {2, 1}}, {{2, 1, 2, 1, 2, 1, 2, 1, 2}, {1, 2, 1, 1, 2, 1, 2, 1}},
	}
	p := ps[vh.Choose("pair", len(ps))]
	op := vh.Choose("op", 4)
	a, b := arrIn("a", p[0], 0.5, 90), arrIn("b", p[1], 0.5, 90)
	if vh.Choose("swap", 2) == 1 {
		a, b = b, a
	}
	vjp(binName[op]+" large", []A{a, b}, func(t []T) (T, error) { return bin(op, t[0], t[1]) })
}

func C07_dot() {
	ba, bb, _ := bcPair("p", pick(3, 4), pick(2, 3), pick(6, 8))
	if sameShape(ba, bb) {
		return
	}
	k := 1 + vh.Choose("k", 3)
	a, b := arr("a", append(cp(ba), k)), arr("b", append(cp(bb), k))
	vjp("dot", []A{a, b}, func(t []T) (T, error) { return t[0].Dot(t[1]) })
}

func C07_matmul() {
	ba, bb, _ := bcPair("p", pick(3, 4), pick(2, 3), pick(4, 6))
	if sameShape(ba, bb) {
		return
	}
	dims := [][3]int{{1, 1, 1}, {2, 3, 1}, {3, 2, 2}, {1, 2, 3}, {2, 1, 2}, {2, 2, 2}, {1, 1, 2}}
	d := dims[vh.Choose("d", len(dims))]
	a, b := arr("a", append(cp(ba), d[0], d[2])), arr("b", append(cp(bb), d[2], d[1]))
	vjp("matmul", []A{a, b}, func(t []T) (T, error) { return t[0].MatMul(t[1]) })
}

// one tensor meets expanded versions of itself and of others in a small program
func C07_program() {
	x := arr("x", []int{2})
	y := arr("y", [][]int{{}, {1}, {2}, {3, 1}, {2, 1, 2}}[vh.Choose("y", 5)])
	k := vh.Choose("prog", 5)
	vjp("program", []A{x, y}, func(t []T) (o T, err error) {
		switch k {
		case 0: // (x + y) * x
			if o, err = t[0].Add(t[1]); err != nil {
				return
			}
			return o.Mul(t[0])
		case 1: // x column times x row, plus y
			c, err := t[0].UnSqueeze(1)
			if err != nil {
				return nil, err
			}
			if o, err = c.Mul(t[0]); err != nil {
				return nil, err
			}
			if len(y.sh) == 2 {
				o, err = o.UnSqueeze(1)
				if err != nil {
					return nil, err
				}
			}
			return o.Sub(t[1])
		case 2: // y * y expanded against x twice
			s, err := t[1].Mul(t[0])
			if err != nil {
				return nil, err
			}
			return s.Mul(t[1])
		case 3: // x^T x over a batch of y
			c, err := t[0].UnSqueeze(0)
			if err != nil {
				return nil, err
			}
			r, err := t[0].UnSqueeze(1)
			if err != nil {
				return nil, err
			}
			if o, err = r.MatMul(c); err != nil {
				return nil, err
			}
			if len(y.sh) == 2 {
				if o, err = o.SumAlong(0); err != nil {
					return nil, err
				}
			}
			return t[1].Add(o)
		}
		s, err := t[1].Sub(t[0]) // (y-x).x
		if err != nil {
			return nil, err
		}
		return s.Dot(t[0])
	})
}

// explicit Broadcast: recorded finding where it averages
func explicitCase(src, out []int) {
	a := arr("x", src)
	t := mk(a, true)
	y, err := t.Broadcast(cp(out))
	if !good(y, err, "broadcast") {
		return
	}
	g := arr("g", out)
	z, err := y.Mul(mk(g, false))
	if !good(z, err, "broadcast") || !bp(z, "broadcast") {
		return
	}
	gradIs(y, g, "broadcast: result")
	want := unbc(g, src)
	got, ok := gradA(t, "broadcast")
	if !ok {
		return
	}
	n := prod(out) / prod(src)
	if n == 1 {
		for i := range got.d {
			vh.Eq(got.d[i], want.d[i], "broadcast without expansion")
		}
		return
	}
	vh.Assume(want.d[0] > 1e-3)
	d := got.d[0]*float64(n) - want.d[0]
	if d < want.d[0]*1e-4 && -d < want.d[0]*1e-4 {
		for i := range got.d {
			vh.Eq(got.d[i]*float64(n), want.d[i], "broadcast: neither the sum nor the average")
			vh.Eq(got.d[i], want.d[i], "explicit-broadcast-averages")
		}
		return
	}
	for i := range got.d {
		vh.Eq(got.d[i], want.d[i], "broadcast: neither the sum nor the average")
	}
}

func C07_explicit() {
	out := shape("s", 0, pick(5, 5), 3, pick(9, 12))
	src := cp(out[vh.Choose("drop", len(out)+1):])
	for i := range src {
		if src[i] > 1 && vh.Choose("one", 2) == 1 {
			src[i] = 1
		}
	}
	explicitCase(src, out)
}

func C07_explicit_large() {
	ps := [][2][]int{{{5}, {7, 5}}, {{1}, {40}}, {{7, 1}, {7, 5}}, {{}, {6, 7}}, {{3, 1, 4}, {2, 3, 5, 4}}, {{1, 2, 1, 2, 1, 2}, {2, 2, 2, 2, 2, 2}}, {{3, 4}, {3, 4}}, {{1}, {260}}, {{2}, {130, 2}}}
	p := ps[vh.Choose("pair", len(ps))]
	explicitCase(p[0], p[1])
}

var _ = tensor.CPU
