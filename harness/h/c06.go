package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C06: indexing, reshaping and construction move elements without changing them.

func sliceA(a A, r []tensor.Range) A {
	c := complete(r, a.sh)
	sh := make([]int, len(c))
	for i := range c {
		sh[i] = c[i].To - c[i].From
	}
	o := newA(sh)
	for k := range o.d {
		ix := idx(sh, k)
		for i := range ix {
			ix[i] += c[i].From
		}
		o.d[k] = a.at(ix)
	}
	return o
}

// patchA writes src into a copy of a at the position given by r.
func patchA(a A, r []tensor.Range, src A) A {
	o := newA(a.sh)
	copy(o.d, a.d)
	for k := range src.d {
		ix := idx(src.sh, k)
		for i := range ix {
			if i < len(r) {
				ix[i] += r[i].From
			}
		}
		o.d[flat(a.sh, ix)] = src.d[k]
	}
	return o
}

func concatA(as []A, dim int) A {
	sh := cp(as[0].sh)
	sh[dim] = 0
	for _, a := range as {
		sh[dim] += a.sh[dim]
	}
	o := newA(sh)
	off := 0
	for _, a := range as {
		for k := range a.d {
			ix := idx(a.sh, k)
			ix[dim] += off
			o.d[flat(sh, ix)] = a.d[k]
		}
		off += a.sh[dim]
	}
	return o
}

// any valid multi-index
func C06_at() {
	sh := shape("s", 0, pick(5, 6), 4, pick(12, 24))
	a := arr("x", sh)
	t := mk(a, vh.Choose("tracked", 2) == 1)
	ix := make([]int, len(sh))
	for i := range ix {
		ix[i] = vh.Int("i", 0, sh[i]-1)
	}
	v, err := t.At(ix...)
	vh.Assert(err == nil, "at: error")
	vh.Eq(v, a.at(ix), "at")
	vh.Assert(t.NElems() == prod(sh), "nelems")
	vh.Assert(sameShape(t.Shape(), sh), "shape")
}

func C06_slice() {
	sh := shape("s", 0, pick(4, 5), 3, pick(12, 12))
	a := arr("x", sh)
	r := rangesFor("ix", sh)
	t := mk(a, vh.Choose("tracked", 2) == 1)
	o, err := t.Slice(r)
	if !good(o, err, "slice") {
		return
	}
	eqT(o, sliceA(a, r), "slice")
	eqT(t, a, "slice: operand unchanged")
}

// symbolic range bounds
func C06_slice_sym() {
	sh := [][]int{{9}, {4, 4}, {2, 3, 3}, {17}, {2, 2, 2, 3}}[vh.Choose("shape", 5)]
	a := arr("x", sh)
	r := make([]tensor.Range, 1+vh.Choose("n", len(sh)))
	for i := range r {
		f := vh.Int("from", 0, sh[i]-1)
		l := vh.Int("to", 1, sh[i])
		vh.Assume(f < l)
		r[i] = rng(vh.Conc(f), vh.Conc(l))
		if i >= 2 && vh.Choose("whole", 2) == 1 {
			r[i] = rng(0, 0)
		}
	}
	o, err := mk(a, false).Slice(r)
	if good(o, err, "slice sym") {
		eqT(o, sliceA(a, r), "slice sym")
	}
}

func checkPatch(a A, ix []tensor.Range, p A, label string) {
	t, s := mk(a, false), mk(p, false)
	o, err := t.Patch(ix, s)
	if !good(o, err, label) {
		return
	}
	eqT(o, patchA(a, ix, p), label)
	eqT(t, a, label+": target unchanged")
	eqT(s, p, label+": source unchanged")
	// slicing what was patched returns the source
	r := make([]tensor.Range, len(p.sh))
	for i := range r {
		f := 0
		if i < len(ix) {
			f = ix[i].From
		}
		r[i] = rng(f, f+p.sh[i])
	}
	b, err := o.Slice(r)
	if good(b, err, label+": slice back") {
		eqT(b, p, label+": slice back")
	}
}

func C06_patch() {
	dst, ix, src := patchCase(pick(4, 4), pick(8, 12))
	checkPatch(arr("x", dst), ix, arr("p", src), "patch")
}

func C06_concat() {
	base := shape("s", 1, pick(4, 5), 3, 4)
	d := vh.Choose("dim", len(base))
	n := 2 + vh.Choose("n", pick(2, 3))
	xs := make([]A, n)
	ts := make([]T, n)
	for i := range xs {
		s := cp(base)
		s[d] = 1 + vh.Choose("len", pick(3, 3))
		xs[i] = arr("x", s)
		ts[i] = mk(xs[i], false)
	}
	checkConcat(xs, ts, d, "concat")
}

func checkConcat(xs []A, ts []T, d int, label string) {
	o, err := tensor.Concat(append([]T{}, ts...), d)
	if !good(o, err, label) {
		return
	}
	eqT(o, concatA(xs, d), label)
	off := 0
	for i := range xs {
		eqT(ts[i], xs[i], label+": operand unchanged")
		r := make([]tensor.Range, d+1)
		r[d] = rng(off, off+xs[i].sh[d])
		off += xs[i].sh[d]
		b, err := o.Slice(r)
		if good(b, err, label+": slice back") {
			eqT(b, xs[i], label+": slice back")
		}
	}
}

// many operands, higher ranks, one tensor given repeatedly
func C06_concat_many() {
	n := 2 + vh.Choose("n", 6)
	sh := [][]int{{1}, {3}, {2, 1}, {1, 3}, {2, 1, 2}, {1, 2, 2, 1}, {1, 2, 1, 2, 1}, {2, 1, 1, 2, 1, 1}}[vh.Choose("shape", 8)]
	d := vh.Choose("dim", len(sh))
	xs := make([]A, n)
	ts := make([]T, n)
	rep := vh.Choose("repeat", 2) == 1
	for i := range xs {
		if rep && i >= 2 {
			xs[i], ts[i] = xs[i%2], ts[i%2]
			continue
		}
		s := cp(sh)
		s[d] += i % 3
		xs[i] = arr("x", s)
		ts[i] = mk(xs[i], i == 1)
	}
	checkConcat(xs, ts, d, "concat many")
}

// every factorisation of n into at most r factors
func factorisations(name string, n, r int) []int {
	var f []int
	for len(f) < r {
		if n == 1 && vh.Choose(name+".stop", 2) == 1 {
			break
		}
		k := 0
		for i := 1; i <= n; i++ {
			if n%i == 0 {
				k++
			}
		}
		k = vh.Choose(name+".f", k)
		if len(f) == r-1 && n > 1 {
			f = append(f, n)
			return f
		}
		for i := 1; i <= n; i++ {
			if n%i == 0 {
				if k == 0 {
					f = append(f, i)
					n /= i
					break
				}
				k--
			}
		}
	}
	if n > 1 {
		f = append(f, n)
	}
	return f
}

func C06_reshape() {
	sh := shape("s", 0, pick(4, 5), 4, pick(12, 16))
	a := arr("x", sh)
	to := factorisations("to", prod(sh), 4)
	t := mk(a, vh.Choose("tracked", 2) == 1)
	o, err := t.Reshape(cp(to))
	if !good(o, err, "reshape") {
		return
	}
	eqT(o, A{to, a.d}, "reshape")
	vh.Assert(o.NElems() == prod(sh), "reshape: nelems")
	eqT(t, a, "reshape: operand unchanged")
	if len(sh) == 0 || prod(sh) == 1 {
		s, err := t.Reshape(nil)
		if good(s, err, "reshape to scalar") {
			eqT(s, A{[]int{}, a.d}, "reshape to scalar")
		}
	}
}

func C06_dims() {
	op := vh.Choose("op", 3)
	lo := 0
	if op > 0 {
		lo = 1
	}
	sh := shape("s", lo, pick(5, 6), 3, pick(12, 12))
	a := arr("x", sh)
	t := mk(a, vh.Choose("tracked", 2) == 1)
	switch op {
	case 0:
		d := vh.Choose("dim", len(sh)+1)
		to := append(append(cp(sh[:d]), 1), sh[d:]...)
		o, err := t.UnSqueeze(d)
		if good(o, err, "unsqueeze") {
			eqT(o, A{to, a.d}, "unsqueeze")
		}
	case 1:
		d := vh.Choose("dim", len(sh))
		if sh[d] != 1 {
			return
		}
		o, err := t.Squeeze(d)
		if good(o, err, "squeeze") {
			eqT(o, A{without(sh, d), a.d}, "squeeze")
		}
	case 2:
		d := vh.Choose("dim", len(sh))
		to := append(cp(sh[:d]), prod(sh[d:]))
		o, err := t.Flatten(d)
		if good(o, err, "flatten") {
			eqT(o, A{to, a.d}, "flatten")
		}
	}
	eqT(t, a, "dims: operand unchanged")
}

func C06_broadcast() {
	out := shape("s", 0, pick(5, 6), 3, pick(12, 18))
	src := cp(out[vh.Choose("drop", len(out)+1):])
	for i := range src {
		if src[i] > 1 && vh.Choose("one", 2) == 1 {
			src[i] = 1
		}
	}
	a := arr("x", src)
	t := mk(a, vh.Choose("tracked", 2) == 1)
	o, err := t.Broadcast(cp(out))
	if good(o, err, "broadcast") {
		eqT(o, bcTo(a, out), "broadcast")
		eqT(t, a, "broadcast: operand unchanged")
	}
}

func C06_construct() {
	op := vh.Choose("op", 5)
	sh := shape("s", 0, pick(5, 6), 4, pick(12, 24))
	track := vh.Choose("tracked", 2) == 1
	var t T
	var err error
	var w A
	switch op {
	case 0:
		v := vh.Float("v")
		t, err = tensor.Full(cp(sh), v, conf(track))
		w = fillA(sh, v)
	case 1:
		t, err = tensor.Zeros(cp(sh), conf(track))
		w = newA(sh)
	case 2:
		t, err = tensor.Ones(cp(sh), conf(track))
		w = fillA(sh, 1)
	case 3:
		n := 1 + vh.Choose("n", 9)
		t, err = tensor.Eye(n, conf(track))
		w = newA([]int{n, n})
		for i := 0; i < n; i++ {
			w.d[i*n+i] = 1
		}
	case 4:
		a := arr("x", sh)
		if len(sh) > 4 {
			return
		}
		t, w = mk(a, track), a
	}
	if good(t, err, "construct") {
		eqT(t, w, []string{"full", "zeros", "ones", "eye", "tensorof"}[op])
		vh.Assert(t.NElems() == prod(w.sh), "construct: nelems")
	}
}

func C06_eye_large() {
	n := []int{17, 64, 130, 257, 300}[vh.Choose("n", 5)]
	t, err := tensor.Eye(n, nil)
	if !good(t, err, "eye") {
		return
	}
	vh.Assert(sameShape(t.Shape(), []int{n, n}), "eye: shape")
	vh.Eq(t.Sum(), float64(n), "eye: sum")
	for i := 0; i < n; i++ {
		v, err := t.At(i, i)
		vh.Assert(err == nil && v == 1, "eye: diagonal")
	}
}

// nil dims and nil configuration
func C06_construct_nil() {
	v := vh.Float("v")
	t, err := tensor.Full(nil, v, nil)
	if good(t, err, "full nil") {
		eqT(t, A{[]int{}, []float64{v}}, "full nil")
	}
	t, err = tensor.TensorOf([][]float64{{v, 1}, {2, 3}}, nil)
	if good(t, err, "tensorof nil") {
		eqT(t, A{[]int{2, 2}, []float64{v, 1, 2, 3}}, "tensorof nil")
	}
	t, err = tensor.Ones([]int{}, nil)
	if good(t, err, "ones nil") {
		eqT(t, A{[]int{}, []float64{1}}, "ones nil")
	}
	t, err = tensor.Zeros([]int{2, 0 + 1}, nil)
	if good(t, err, "zeros nil") {
		eqT(t, newA([]int{2, 1}), "zeros nil")
	}
}

var wideShapes = [][]int{{37}, {130}, {5, 8}, {1, 23}, {23, 1}, {3, 4, 5}, {2, 3, 2, 4}, {3, 1, 2, 2, 3}, {2, 2, 3, 1, 2, 3}, {4, 1, 1, 5}, {11, 12}, {2, 1, 1, 2, 1, 2}, {300}, {1100}, {3, 260}, {33, 33}, {2, 1, 2, 1, 2, 1, 2, 1, 2}}

// the movers on larger tensors
func C06_large() {
	sh := wideShapes[vh.Choose("shape", len(wideShapes))]
	a := arr("x", sh)
	t := mk(a, false)
	n := len(a.d)
	switch vh.Choose("op", 7) {
	case 0:
		o, err := t.Reshape(rev(sh))
		if good(o, err, "large reshape") {
			eqT(o, A{rev(sh), a.d}, "large reshape")
		}
	case 1:
		o, err := t.Flatten(0)
		if good(o, err, "large flatten") {
			eqT(o, A{[]int{n}, a.d}, "large flatten")
		}
	case 2:
		to := append([]int{2}, sh...)
		o, err := t.Broadcast(to)
		if good(o, err, "large broadcast") {
			eqT(o, bcTo(a, to), "large broadcast")
		}
	case 3:
		to := append([]int{3, 1}, sh...)
		for i := range to {
			if to[i] == 1 {
				to[i] = 2
			}
		}
		if prod(to) > 1500 {
			return
		}
		o, err := t.Broadcast(to)
		if good(o, err, "large broadcast") {
			eqT(o, bcTo(a, to), "large broadcast")
		}
	case 4:
		r := make([]tensor.Range, len(sh))
		for i := range r {
			if sh[i] > 1 {
				r[i] = rng(1, sh[i])
			}
		}
		o, err := t.Slice(r)
		if good(o, err, "large slice") {
			eqT(o, sliceA(a, r), "large slice")
		}
	case 5:
		r := make([]tensor.Range, len(sh))
		s := cp(sh)
		for i := range r {
			if sh[i] > 2 {
				r[i] = rng(1, sh[i]-1)
				s[i] = sh[i] - 2
			}
		}
		checkPatch(a, r, arr("p", s), "large patch")
	case 6:
		d := vh.Choose("dim", len(sh))
		s := cp(sh)
		s[d] = 2
		xs := []A{a, arr("y", s), a}
		ts := []T{t, mk(xs[1], false), t}
		checkConcat(xs, ts, d, "large concat")
	}
}

// infinite and undefined elements are moved like any other
func C06_special() {
	sp := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[vh.Choose("value", 3)]
	a, p := arr("x", []int{2, 1, 2}), arr("p", []int{1, 1, 2})
	a.d[vh.Choose("at", 4)] = sp
	p.d[vh.Choose("p at", 2)] = sp
	t := mk(a, false)
	o, err := t.Slice(rngs(1, 2, 0, 0, 0, 2))
	if good(o, err, "special") {
		eqT(o, sliceA(a, rngs(1, 2, 0, 0, 0, 2)), "special: slice")
	}
	f := vh.Choose("from", 2)
	checkPatch(a, rngs(f, f+1), p, "special: patch")
	checkConcat([]A{a, p}, []T{t, mk(p, false)}, 0, "special: concat")
	o, err = t.Reshape([]int{4, 1})
	if good(o, err, "special") {
		eqT(o, A{[]int{4, 1}, a.d}, "special: reshape")
	}
	o, err = t.Broadcast([]int{2, 2, 2})
	if good(o, err, "special") {
		eqT(o, bcTo(a, []int{2, 2, 2}), "special: broadcast")
	}
	o, err = t.Flatten(1)
	if good(o, err, "special") {
		eqT(o, A{[]int{2, 2}, a.d}, "special: flatten")
	}
	o, err = t.Squeeze(1)
	if good(o, err, "special") {
		eqT(o, A{[]int{2, 2}, a.d}, "special: squeeze")
	}
	o, err = tensor.Full([]int{2}, sp, nil)
	if good(o, err, "special") {
		eqT(o, fillA([]int{2}, sp), "special: full")
	}
	o, err = tensor.TensorOf([][]float64{{1, sp}, {2, 3}}, nil)
	if good(o, err, "special") {
		eqT(o, A{[]int{2, 2}, []float64{1, sp, 2, 3}}, "special: TensorOf")
	}
}
