package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C04: batched linear algebra against the defining sums.

func matmulA(a, b A) A {
	ra, rb := len(a.sh), len(b.sh)
	m, k, n := a.sh[ra-2], a.sh[ra-1], b.sh[rb-1]
	bs, ok := bcShape(a.sh[:ra-2], b.sh[:rb-2])
	if !ok {
		panic("matmulA")
	}
	r := newA(append(cp(bs), m, n))
	for q := range r.d {
		ix := idx(r.sh, q)
		i, j := ix[len(bs)], ix[len(bs)+1]
		ba, bb := bcIdx(a.sh[:ra-2], ix[:len(bs)]), bcIdx(b.sh[:rb-2], ix[:len(bs)])
		s := 0.
		for l := 0; l < k; l++ {
			s += a.at(append(cp(ba), i, l)) * b.at(append(cp(bb), l, j))
		}
		r.d[q] = s
	}
	return r
}

func dotA(a, b A) A {
	k := a.sh[len(a.sh)-1]
	bs, ok := bcShape(a.sh[:len(a.sh)-1], b.sh[:len(b.sh)-1])
	if !ok {
		panic("dotA")
	}
	r := newA(bs)
	for q := range r.d {
		ix := idx(bs, q)
		ba, bb := bcIdx(a.sh[:len(a.sh)-1], ix), bcIdx(b.sh[:len(b.sh)-1], ix)
		s := 0.
		for l := 0; l < k; l++ {
			s += a.at(append(cp(ba), l)) * b.at(append(cp(bb), l))
		}
		r.d[q] = s
	}
	return r
}

func transA(a A) A {
	n := len(a.sh)
	sh := cp(a.sh)
	sh[n-1], sh[n-2] = sh[n-2], sh[n-1]
	r := newA(sh)
	for q := range r.d {
		ix := idx(sh, q)
		ix[n-1], ix[n-2] = ix[n-2], ix[n-1]
		r.d[q] = a.at(ix)
	}
	return r
}

func checkMM(a, b A, ta, tb T, label string) {
	o, err := ta.MatMul(tb)
	if !good(o, err, label) {
		return
	}
	eqT(o, matmulA(a, b), label)
	eqT(ta, a, label+": operand unchanged")
	eqT(tb, b, label+": operand unchanged")
}

func C04_matmul2() {
	m, n, k := 1+vh.Choose("m", 4), 1+vh.Choose("n", 4), 1+vh.Choose("k", 4)
	a, b := arr("a", []int{m, k}), arr("b", []int{k, n})
	checkMM(a, b, mk(a, vh.Choose("tracked", 2) == 1), mk(b, false), "matmul")
}

func C04_matmul_batch() {
	ba, bb, _ := bcPair("p", pick(3, 4), pick(2, 3), pick(6, 8))
	if len(ba)+len(bb) == 0 {
		return
	}
	dims := [][3]int{{1, 1, 1}, {2, 3, 1}, {3, 2, 2}, {1, 2, 3}, {2, 1, 2}, {2, 2, 2}, {3, 1, 2}, {1, 3, 2}}
	d := dims[vh.Choose("d", len(dims))]
	a, b := arr("a", append(cp(ba), d[0], d[2])), arr("b", append(cp(bb), d[2], d[1]))
	checkMM(a, b, mk(a, false), mk(b, vh.Choose("tracked", 2) == 1), "matmul batch")
}

func C04_matmul_large() {
	ps := [][2][]int{
		{{7, 11}, {11, 5}}, {{1, 40}, {40, 1}}, {{40, 1}, {1, 3}}, {{3, 1, 2, 5}, {4, 5, 2}}, {{2, 5}, {3, 2, 5, 3}},
		{{2, 1, 3, 1, 2, 3}, {1, 2, 1, 2, 3, 2}}, {{5, 2, 3}, {3, 4}}, {{1, 2, 3}, {4, 3, 2}}, {{4, 2, 3}, {1, 3, 2}}, {{2, 3, 2, 2}, {3, 2, 2}},
		{{2, 2, 2, 2, 2, 2}, {2, 2, 2, 2, 2, 2}}, {{13, 13}, {13, 13}},
		{{2, 70}, {70, 3}}, {{3, 130}, {130, 2}}, {{1, 260}, {260, 1}}, {{1, 1030}, {1030, 1}}, {{70, 2}, {2, 3}}, {{3, 2}, {2, 70}}, {{33, 33}, {33, 2}}, {{2, 33}, {33, 33}}, {{70, 1, 2}, {2, 2}}, {{2, 2}, {70, 2, 1}}, {{2, 1, 2, 1, 2, 1, 2, 1, 2}, {1, 2, 1, 1, 2, 1, 2, 3}},
	}
	p := ps[vh.Choose("pair", len(ps))]
	a, b := arr("a", p[0]), arr("b", p[1])
	checkMM(a, b, mk(a, false), mk(b, false), "matmul large")
}

func C04_dot() {
	ba, bb, _ := bcPair("p", pick(3, 5), pick(2, 3), pick(8, 8))
	k := 1 + vh.Choose("k", 4)
	a, b := arr("a", append(cp(ba), k)), arr("b", append(cp(bb), k))
	ta, tb := mk(a, vh.Choose("tracked", 2) == 1), mk(b, false)
	o, err := ta.Dot(tb)
	if !good(o, err, "dot") {
		return
	}
	eqT(o, dotA(a, b), "dot")
	eqT(ta, a, "dot: operand unchanged")
	eqT(tb, b, "dot: operand unchanged")
}

func C04_dot_large() {
	ps := [][2][]int{
		{{60}, {60}}, {{5, 7}, {7}}, {{7}, {5, 7}}, {{2, 1, 6}, {3, 6}}, {{3, 2, 2, 3}, {2, 1, 3}}, {{1, 2, 1, 2, 1, 3}, {2, 1, 2, 1, 2, 3}},
		{{2, 2, 2, 2, 2, 2}, {2, 2, 2, 2, 2, 2}}, {{1, 9}, {8, 9}}, {{9, 1}, {9, 1}}, {{33, 2}, {33, 2}}, {{130}, {130}}, {{1030}, {1030}}, {{2, 260}, {260}}, {{260, 2}, {2}}, {{70, 3}, {1, 3}}, {{2, 1, 2, 1, 2, 1, 2, 1, 2}, {1, 2, 1, 1, 2, 1, 2, 2}},
	}
	p := ps[vh.Choose("pair", len(ps))]
	a, b := arr("a", p[0]), arr("b", p[1])
	o, err := mk(a, false).Dot(mk(b, false))
	if good(o, err, "dot large") {
		eqT(o, dotA(a, b), "dot large")
	}
}

func C04_transpose() {
	sh := shape("s", 2, pick(5, 6), 4, pick(12, 16))
	a := arr("a", sh)
	t := mk(a, vh.Choose("tracked", 2) == 1)
	o, err := t.Transpose()
	if !good(o, err, "transpose") {
		return
	}
	eqT(o, transA(a), "transpose")
	eqT(t, a, "transpose: operand unchanged")
	p, err := o.Transpose()
	if good(p, err, "transpose twice") {
		eqT(p, a, "transpose twice")
	}
}

func C04_transpose_large() {
	shs := [][]int{{9, 13}, {1, 40}, {40, 1}, {3, 5, 7}, {2, 3, 4, 5}, {2, 3, 2, 3, 4}, {2, 2, 2, 2, 3, 5}, {2, 1, 3, 1, 2, 4}, {1, 1, 1, 1, 7, 3}, {12, 11}, {33, 33}, {2, 520}, {520, 2}, {70, 2, 3}, {2, 1, 2, 1, 2, 1, 2, 1, 2}}
	a := arr("a", shs[vh.Choose("shape", len(shs))])
	o, err := mk(a, false).Transpose()
	if good(o, err, "transpose large") {
		eqT(o, transA(a), "transpose large")
	}
}

// A.I = A, I.A = A and (A.B)^T = B^T.A^T
func C04_identities() {
	m, k, n := 1+vh.Choose("m", 3), 1+vh.Choose("k", 3), 1+vh.Choose("n", 3)
	bs := [][]int{{}, {2}, {1, 2}, {2, 2}}[vh.Choose("batch", 4)]
	a, b := arr("a", append(cp(bs), m, k)), arr("b", append(cp(bs), k, n))
	ta, tb := mk(a, false), mk(b, false)
	I, err := tensor.Eye(k, conf(false))
	if !good(I, err, "eye") {
		return
	}
	o, err := ta.MatMul(I)
	if good(o, err, "A.I") {
		eqT(o, a, "A.I")
	}
	o, err = I.MatMul(tb)
	if good(o, err, "I.B") {
		eqT(o, b, "I.B")
	}
	at, e1 := ta.Transpose()
	bt, e2 := tb.Transpose()
	if !good(at, e1, "A^T") || !good(bt, e2, "B^T") {
		return
	}
	p, err := bt.MatMul(at)
	if good(p, err, "B^T.A^T") {
		eqT(p, transA(matmulA(a, b)), "B^T.A^T")
	}
}

// one tensor as both operands
func C04_self() {
	n := 1 + vh.Choose("n", 3)
	bs := [][]int{{}, {2}, {2, 1}}[vh.Choose("batch", 3)]
	a := arr("a", append(cp(bs), n, n))
	t := mk(a, true)
	checkMM(a, a, t, t, "matmul self")
	o, err := t.Dot(t)
	if good(o, err, "dot self") {
		eqT(o, dotA(a, a), "dot self")
	}
}

// infinite and undefined elements, and zeros against them
func C04_special() {
	sp := func(name string) float64 {
		switch vh.Choose(name, 4) {
		case 1:
			return math.Inf(1)
		case 2:
			return math.NaN()
		case 3:
			return 0
		}
		return vh.FloatIn(name, 0.5, 4)
	}
	a, b := newA([]int{2, 2}), newA([]int{2, 2})
	for i := range a.d {
		a.d[i] = vh.FloatIn("x", 0.5, 4)
		b.d[i] = vh.FloatIn("y", 0.5, 4)
	}
	i := vh.Choose("at", 4)
	a.d[i] = sp("a")
	b.d[vh.Choose("with", 4)] = sp("b")
	ta, tb := mk(a, false), mk(b, false)
	checkMM(a, b, ta, tb, "matmul special")
	o, err := ta.Dot(tb)
	if good(o, err, "dot special") {
		eqT(o, dotA(a, b), "dot special")
	}
	o, err = ta.Transpose()
	if good(o, err, "transpose special") {
		eqT(o, transA(a), "transpose special")
	}
}
