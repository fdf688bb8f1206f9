package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C09: every call is total. A panic anywhere in a harness is a violation.

const far = 1 << 62

func anyInt(name string) int { return vh.Int(name, -far, far) }

// tot states that the call succeeded with the shape sh exactly if ok.
func tot(t T, err error, ok bool, sh []int, label string) {
	if !ok {
		bad(t, err, label)
		return
	}
	if good(t, err, label) {
		vh.Assert(sameShape(t.Shape(), sh), label+": shape")
		n, k := t.NElems(), prod(sh)
		vh.Assert(n == k, label+": NElems")
		z := make([]int, len(sh))
		for i := range z {
			z[i] = sh[i] - 1
		}
		_, err = t.At(z...)
		vh.Assert(err == nil, label+": last element")
	}
}

// dimsArg chooses a dimension list: nil, or rank 0..5 with entries that are
// either all positive (of at most maxEl elements) or arbitrary around one that
// is not.
func dimsArg(name string, maxEl int) (d []int, ok bool) {
	r := vh.Choose(name+".rank", 8) - 1
	if r < 0 {
		return nil, true
	}
	d = make([]int, r)
	if r > 0 && vh.Choose(name+".valid", 2) == 1 {
		p := vh.Choose(name+".bad", r)
		for i := range d {
			switch {
			case i == p:
				d[i] = vh.Int(name, -far, 0)
			case i < p:
				d[i] = vh.Int(name, 1, far)
			default:
				d[i] = anyInt(name)
			}
		}
		return d, false
	}
	n := 1
	for i := range d {
		m := maxEl / n
		if m > 6 {
			m = 6
		}
		d[i] = vh.Int(name, 1, m)
		d[i] = vh.Conc(d[i])
		n *= d[i]
	}
	return d, true
}

// confArg chooses a configuration: nil, or any device number.
func confArg() (c *tensor.Config, ok bool) {
	if vh.Choose("conf", 2) == 0 {
		return nil, true
	}
	d := anyInt("device")
	return &tensor.Config{Device: tensor.Device(d), GradTrack: vh.Choose("track", 2) == 1}, d == int(tensor.CPU)
}

func specialF(name string) float64 {
	switch vh.Choose(name+".kind", 4) {
	case 1:
		return math.NaN()
	case 2:
		return math.Inf(1)
	case 3:
		return math.Inf(-1)
	}
	return vh.Float(name)
}

func C09_constant() {
	d, ok := dimsArg("d", pick(24, 64))
	c, okc := confArg()
	k := vh.Choose("f", 3)
	var t T
	var err error
	switch k {
	case 0:
		t, err = tensor.Full(d, vh.Float("v"), c)
	case 1:
		t, err = tensor.Zeros(d, c)
	case 2:
		t, err = tensor.Ones(d, c)
	}
	tot(t, err, ok && okc, d, "constant")
}

func C09_full_special() {
	for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64} {
		t, err := tensor.Full([]int{2, 1}, v, nil)
		tot(t, err, true, []int{2, 1}, "full special")
		t, err = tensor.TensorOf([][]float64{{v, 0}}, nil)
		tot(t, err, true, []int{1, 2}, "full special")
	}
}

func C09_eye() {
	c, okc := confArg()
	var n int
	ok := true
	if vh.Choose("valid", 2) == 1 {
		n, ok = vh.Int("n", -far, 0), false
	} else {
		n = vh.Conc(vh.Int("n", 1, pick(8, 16)))
	}
	t, err := tensor.Eye(n, c)
	tot(t, err, ok && okc, []int{n, n}, "eye")
}

func C09_random() {
	d, ok := dimsArg("d", pick(2, 4))
	c, okc := confArg()
	if vh.Choose("f", 2) == 0 {
		l, u := specialF("l"), specialF("u")
		t, err := tensor.RandU(d, l, u, c)
		tot(t, err, ok && okc && l < u, d, "RandU")
	} else {
		m, s := specialF("m"), specialF("s")
		t, err := tensor.RandN(d, m, s, c)
		tot(t, err, ok && okc && s > 0, d, "RandN")
	}
}

// --- nested data

func nest1(max int) []float64 {
	n := vh.Choose("n1", max+2) - 1
	if n < 0 {
		return nil
	}
	return make([]float64, n)
}

func C09_data1() {
	c, okc := confArg()
	v := nest1(5)
	t, err := tensor.TensorOf(v, c)
	tot(t, err, okc && len(v) > 0, []int{len(v)}, "data1")
	f := specialF("v")
	t, err = tensor.TensorOf(f, c)
	tot(t, err, okc, []int{}, "data0")
}

func rect2(v [][]float64) (sh []int, ok bool) {
	if len(v) == 0 || len(v[0]) == 0 {
		return nil, false
	}
	for _, r := range v {
		if len(r) != len(v[0]) {
			return nil, false
		}
	}
	return []int{len(v), len(v[0])}, true
}

func rect3(v [][][]float64) (sh []int, ok bool) {
	if len(v) == 0 {
		return nil, false
	}
	for i, r := range v {
		s, o := rect2(r)
		if !o || (i > 0 && !sameShape(s, sh)) {
			return nil, false
		}
		sh = s
	}
	return append([]int{len(v)}, sh...), true
}

func rect4(v [][][][]float64) (sh []int, ok bool) {
	if len(v) == 0 {
		return nil, false
	}
	for i, r := range v {
		s, o := rect3(r)
		if !o || (i > 0 && !sameShape(s, sh)) {
			return nil, false
		}
		sh = s
	}
	return append([]int{len(v)}, sh...), true
}

func nest2(outer, inner int) [][]float64 {
	n := vh.Choose("n2", outer+1)
	if n == 0 {
		return nil
	}
	v := make([][]float64, n)
	for i := range v {
		v[i] = nest1(inner)
	}
	return v
}

func nest3(a, b, c int) [][][]float64 {
	n := vh.Choose("n3", a+1)
	v := make([][][]float64, n)
	for i := range v {
		v[i] = nest2(b, c)
	}
	return v
}

func C09_data2() {
	v := nest2(3, 4)
	sh, ok := rect2(v)
	t, err := tensor.TensorOf(v, conf(false))
	tot(t, err, ok, sh, "data2")
}

func C09_data3() {
	v := nest3(pick(2, 3), 2, 2)
	sh, ok := rect3(v)
	t, err := tensor.TensorOf(v, conf(true))
	tot(t, err, ok, sh, "data3")
}

// rectangular data of depth 4 with up to two nodes cut or grown
func C09_data4() {
	s := []int{1 + vh.Choose("s0", 2), 1 + vh.Choose("s1", 2), 1 + vh.Choose("s2", 2), 1 + vh.Choose("s3", 2)}
	v := make([][][][]float64, s[0])
	for i := range v {
		v[i] = make([][][]float64, s[1])
		for j := range v[i] {
			v[i][j] = make([][]float64, s[2])
			for l := range v[i][j] {
				v[i][j][l] = make([]float64, s[3])
			}
		}
	}
	for n := vh.Choose("cuts", 3); n > 0; n-- {
		lv := vh.Choose("level", 4)
		if lv == 0 {
			if n == 1 && vh.Choose("none", 2) == 0 {
				v = nil
			} else {
				v = v[:0]
			}
			continue
		}
		if len(v) == 0 {
			return
		}
		i := vh.Choose("i", len(v))
		if lv == 1 {
			if m := vh.Choose("m", 4); m <= len(v[i]) {
				v[i] = v[i][:m]
			} else {
				v[i] = append(append([][][]float64{}, v[i]...), [][]float64{{1}})
			}
			continue
		}
		if len(v[i]) == 0 {
			return
		}
		j := vh.Choose("j", len(v[i]))
		if lv == 2 {
			if m := vh.Choose("m", 4); m <= len(v[i][j]) {
				v[i][j] = v[i][j][:m]
			} else {
				v[i][j] = append(append([][]float64{}, v[i][j]...), make([]float64, s[3]))
			}
			continue
		}
		if len(v[i][j]) == 0 {
			return
		}
		l := vh.Choose("l", len(v[i][j]))
		v[i][j][l] = make([]float64, vh.Choose("m", 4))
	}
	sh, ok := rect4(v)
	t, err := tensor.TensorOf(v, conf(false))
	tot(t, err, ok, sh, "data4")
}

func C09_T_data4() {
	n := vh.Choose("n4", 3)
	v := make([][][][]float64, n)
	for i := range v {
		v[i] = nest3(2, 2, 1)
	}
	sh, ok := rect4(v)
	t, err := tensor.TensorOf(v, conf(false))
	tot(t, err, ok, sh, "data4")
}

// --- accessors

var c09shapes = [][]int{{}, {1}, {3}, {2, 3}, {1, 1}, {3, 1, 2}, {2, 1, 2, 1}, {1, 2, 1, 2, 1}, {2, 2, 2}, {1, 1, 1, 3, 1}}

func c09T(name string) (T, []int) {
	sh := c09shapes[vh.Choose(name, len(c09shapes))]
	return mk(fillA(sh, 1.5), vh.Choose(name+".track", 2) == 1), sh
}

func C09_at() {
	t, sh := c09T("t")
	n := vh.Choose("n", 7)
	ix := make([]int, n)
	ok := n == len(sh)
	for i := range ix {
		ix[i] = anyInt("i")
	}
	if n == 0 && vh.Choose("nil", 2) == 1 {
		ix = nil
	}
	for i := range ix {
		if ok && (ix[i] < 0 || ix[i] >= sh[i]) {
			ok = false
		}
	}
	v, err := t.At(ix...)
	vh.Assert((err == nil) == ok, "At: error")
	if err == nil {
		vh.Eq(v, 1.5, "At: value")
	} else {
		vh.Eq(v, 0, "At: value despite error")
	}
}

// rangesArg: n arbitrary ranges; ok and the block they select in sh.
func rangesArg(name string, n int, sh []int) (r []tensor.Range, blk []int, ok bool) {
	r = make([]tensor.Range, n)
	blk = cp(sh)
	ok = n <= len(sh)
	for i := range r {
		r[i] = rng(anyInt(name+".from"), anyInt(name+".to"))
	}
	for i := range r {
		if !ok {
			break
		}
		f, t := r[i].From, r[i].To
		if f == 0 && t == 0 {
			continue
		}
		if f < 0 || f >= t || t > sh[i] {
			ok = false
			break
		}
		blk[i] = t - f
	}
	return
}

func C09_slice() {
	t, sh := c09T("t")
	n := vh.Choose("n", 7)
	r, blk, ok := rangesArg("r", n, sh)
	if n == 0 && vh.Choose("nil", 2) == 1 {
		r = nil
	}
	y, err := t.Slice(r)
	tot(y, err, ok, blk, "Slice")
}

func C09_patch() {
	dst := c09shapes[vh.Choose("t", 6)]
	t := mk(fillA(dst, 1), false)
	n := vh.Choose("n", 4)
	r, blk, ok := rangesArg("r", n, dst)
	var src []int
	var u T
	switch vh.Choose("src", 3) {
	case 0:
		y, err := t.Patch(r, nil)
		bad(y, err, "Patch nil")
		return
	case 1: // of the rank of the target
		src = cp(dst)
		for i := range src {
			src[i] = 1 + vh.Choose("src.d", 4)
		}
	case 2:
		src = c09shapes[vh.Choose("src.s", 7)]
	}
	u = mk(fillA(src, 2), false)
	ok = ok && len(src) == len(dst)
	if ok {
		for i := range dst {
			if i < n && !(r[i].From == 0 && r[i].To == 0) {
				ok = ok && src[i] == blk[i]
			} else {
				// an open range takes a source that fits
				ok = ok && src[i] <= dst[i]
			}
		}
	}
	y, err := t.Patch(r, u)
	tot(y, err, ok, dst, "Patch")
}

func C09_concat() {
	n := vh.Choose("n", 4)
	ts := make([]T, n)
	dim := anyInt("dim")
	ok := n >= 2
	var out []int
	base := c09shapes[vh.Choose("base", 7)]
	for i := range ts {
		sh := cp(base)
		switch vh.Choose("elem", 4) {
		case 1:
			ok = false
			continue // nil
		case 2: // one dimension differs
			if len(sh) > 0 {
				sh[vh.Choose("p", len(sh))] = 4
			}
		case 3: // another rank
			if len(sh) > 0 && vh.Choose("drop", 2) == 1 {
				sh = sh[1:]
			} else {
				sh = append(sh, 1)
			}
		}
		ts[i] = mk(fillA(sh, 1), i == 0)
		if i == 0 {
			out = cp(sh)
			continue
		}
		if !ok {
			continue
		}
		if len(sh) != len(out) {
			ok = false
			continue
		}
		if dim < 0 || dim >= len(out) {
			ok = false
			continue
		}
		for j := range sh {
			if j == dim {
				out[j] += sh[j]
			} else if sh[j] != out[j] {
				ok = false
			}
		}
	}
	if n == 0 && vh.Choose("nil", 2) == 1 {
		ts = nil
	}
	y, err := tensor.Concat(ts, dim)
	tot(y, err, ok, out, "Concat")
}

// --- shape modifiers

func C09_dim() {
	t, sh := c09T("t")
	d := anyInt("dim")
	in := d >= 0 && d < len(sh)
	switch vh.Choose("f", 12) {
	case 0:
		y, err := t.Transpose()
		ok := len(sh) >= 2
		w := cp(sh)
		if ok {
			w[len(w)-1], w[len(w)-2] = w[len(w)-2], w[len(w)-1]
		}
		tot(y, err, ok, w, "Transpose")
	case 1:
		y, err := t.UnSqueeze(d)
		ok := d >= 0 && d <= len(sh)
		var w []int
		if ok {
			w = append(append(append(w, sh[:d]...), 1), sh[d:]...)
		}
		tot(y, err, ok, w, "UnSqueeze")
	case 2:
		y, err := t.Squeeze(d)
		ok := in && sh[d] == 1
		var w []int
		if ok {
			w = without(sh, d)
		}
		tot(y, err, ok, w, "Squeeze")
	case 3:
		y, err := t.Flatten(d)
		var w []int
		if in {
			w = append(cp(sh[:d]), prod(sh[d:]))
		}
		tot(y, err, in, w, "Flatten")
	case 4:
		y, err := t.SumAlong(d)
		along(y, err, in, sh, d, "SumAlong")
	case 5:
		y, err := t.MaxAlong(d)
		along(y, err, in, sh, d, "MaxAlong")
	case 6:
		y, err := t.MinAlong(d)
		along(y, err, in, sh, d, "MinAlong")
	case 7:
		y, err := t.AvgAlong(d)
		along(y, err, in, sh, d, "AvgAlong")
	case 8:
		y, err := t.VarAlong(d)
		along(y, err, in, sh, d, "VarAlong")
	case 9:
		y, err := t.StdAlong(d)
		along(y, err, in, sh, d, "StdAlong")
	case 10:
		y, err := t.MeanAlong(d)
		along(y, err, in, sh, d, "MeanAlong")
	case 11:
		for k := 0; k < 10; k++ {
			y, err := unaryOnly(k, t)
			tot(y, err, true, sh, "element-wise")
		}
		t.Sum()
		t.Max()
		t.Min()
		t.Avg()
		t.Var()
		t.Std()
		t.Mean()
		t.GradContext()
		t.Gradient()
		t.ResetGradContext(false)
		t.ResetGradContext(true)
	}
}

func along(y T, err error, in bool, sh []int, d int, label string) {
	var w []int
	if in {
		w = without(sh, d)
	}
	tot(y, err, in, w, label)
}

func unaryOnly(k int, t T) (T, error) {
	switch k {
	case 0:
		return t.Scale(vh.Float("s")), nil
	case 1:
		return t.Pow(3), nil
	case 2:
		return t.Exp(), nil
	case 3:
		return t.Log(), nil
	case 4:
		return t.Sin(), nil
	case 5:
		return t.Cos(), nil
	case 6:
		return t.Tan(), nil
	case 7:
		return t.Sinh(), nil
	case 8:
		return t.Cosh(), nil
	}
	return t.Tanh(), nil
}

// scale and power arguments of every kind
func C09_scalar_arg() {
	sh := c09shapes[vh.Choose("t", len(c09shapes))]
	v := []float64{1.5, 0, -2, math.NaN(), math.Inf(1), math.Inf(-1)}[vh.Choose("value", 6)]
	t := mk(fillA(sh, v), vh.Choose("track", 2) == 1)
	u := []float64{0, 1, -1, 2, 0.5, -0.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e300}[vh.Choose("u", 10)]
	var y T
	if vh.Choose("f", 2) == 0 {
		y = t.Scale(u)
	} else {
		y = t.Pow(u)
	}
	tot(y, nil, true, sh, "scalar argument")
	if vh.Choose("bp", 2) == 1 {
		vh.Assert(tensor.BackPropagate(y) == nil, "scalar argument: back-propagation")
	}
}

// targets of Reshape and Broadcast: entries in [-2, 6]
func smallDims(name string, maxRank, lo, hi int) ([]int, bool) {
	r := vh.Choose(name+".rank", maxRank+2) - 1
	if r < 0 {
		return nil, true
	}
	d := make([]int, r)
	ok := true
	for i := range d {
		d[i] = vh.Int(name, lo, hi)
		if d[i] <= 0 {
			ok = false
		} else if ok {
			d[i] = vh.Conc(d[i])
		}
	}
	return d, ok
}

func C09_reshape() {
	t, sh := c09T("t")
	d, ok := smallDims("d", pick(3, 4), -2, 6)
	if ok {
		ok = prod(d) == prod(sh)
	}
	y, err := t.Reshape(d)
	tot(y, err, ok, d, "Reshape")
}

func C09_reshape_rank5() {
	t, sh := c09T("t")
	d, ok := smallDims("d", 6, 0, 2)
	if ok {
		ok = prod(d) == prod(sh)
	}
	y, err := t.Reshape(d)
	tot(y, err, ok, d, "Reshape")
}

// far-away entries next to a non-positive one are rejected before any arithmetic
func C09_reshape_far() {
	t, _ := c09T("t")
	d := []int{anyInt("d"), anyInt("d"), anyInt("d")}
	p := vh.Choose("p", 3)
	vh.Assume(d[p] <= 0)
	y, err := t.Reshape(d)
	bad(y, err, "Reshape far")
	y, err = t.Broadcast(d)
	bad(y, err, "Broadcast far")
}

// products of sizes beyond the largest integer, which wrap around
func C09_reshape_wrap() {
	sh := [][]int{{}, {4}, {3, 2}}[vh.Choose("operand", 3)]
	t := mk(fillA(sh, 1), vh.Choose("track", 2) == 1)
	r := 1 + vh.Choose("rank", pick(2, 3))
	d := make([]int, r)
	p := vh.Choose("p", r)
	rest := prod(sh)
	for i := range d {
		if i != p {
			d[i] = []int{1, 2, 3, 4, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 61, 1 << 62}[vh.Choose("size", 9)]
			if rest%d[i] != 0 {
				rest = 0
			}
			rest /= d[i]
		}
	}
	d[p] = vh.Int("d", 1, 1<<62+(1<<62-1))
	if d[p] == rest {
		d[p] = rest
		y, err := t.Reshape(d)
		tot(y, err, true, d, "Reshape wrap")
		return
	}
	y, err := t.Reshape(d)
	bad(y, err, "Reshape wrap")
}

func bcOK(sh, d []int) bool {
	if len(d) < len(sh) {
		return false
	}
	for k := 1; k <= len(sh); k++ {
		if s := sh[len(sh)-k]; s != 1 && s != d[len(d)-k] {
			return false
		}
	}
	return true
}

func C09_broadcast() {
	t, sh := c09T("t")
	d, ok := smallDims("d", pick(3, 4), -2, 6)
	if ok {
		ok = bcOK(sh, d)
	}
	y, err := t.Broadcast(d)
	tot(y, err, ok, d, "Broadcast")
}

func C09_broadcast_rank5() {
	t, sh := c09T("t")
	d, ok := smallDims("d", 6, 0, 2)
	if ok {
		ok = bcOK(sh, d)
	}
	y, err := t.Broadcast(d)
	tot(y, err, ok, d, "Broadcast")
}

// --- two operands

func opShape(name string) []int {
	n := vh.Choose(name+".rank", 4)
	sh := make([]int, n)
	for i := range sh {
		sh[i] = 1 + vh.Choose(name+".d", 3)
	}
	return sh
}

// twoOps runs every binary method on operands of the given shapes.
func twoOps(f int, sa, sb []int, ta, tb bool) {
	a, b := mk(fillA(sa, 2), ta), mk(fillA(sb, 3), tb)
	bc, bok := bcShape(sa, sb)
	switch {
	case f < 6: // comparisons
		y, err := cmpT(f, a, b)
		tot(y, err, sameShape(sa, sb), sa, "comparison")
	case f < 12:
		y, err := bin(f-6, a, b)
		if f-6 >= 4 { // ElMax, ElMin
			tot(y, err, sameShape(sa, sb), sa, "ElMax/ElMin")
		} else {
			tot(y, err, bok, bc, "arithmetic")
		}
	case f == 12:
		ok := len(sa) > 0 && len(sb) > 0 && bok && sa[len(sa)-1] == sb[len(sb)-1]
		var w []int
		if ok {
			w = bc[:len(bc)-1]
		}
		y, err := a.Dot(b)
		tot(y, err, ok, w, "Dot")
	case f == 13:
		m, n := len(sa), len(sb)
		ok := m > 1 && n > 1
		var w []int
		if ok {
			ok = sa[m-1] == sb[n-2]
			w, bok = bcShape(sa[:m-2], sb[:n-2])
			ok = ok && bok
			w = append(w, sa[m-2], sb[n-1])
		}
		y, err := a.MatMul(b)
		tot(y, err, ok, w, "MatMul")
	default:
		e, err := a.Equals(b)
		vh.Assert((err == nil) == sameShape(sa, sb), "Equals: error")
		if err != nil {
			vh.Assert(!e, "Equals: result despite error")
		}
	}
}

func C09_binary() {
	sa, sb := opShape("a"), opShape("b")
	f := vh.Choose("f", 15)
	tr := vh.Choose("track", pick(2, 4))
	twoOps(f, sa, sb, tr&1 == 1, tr&2 == 2)
}

// higher ranks
func C09_binary_rank() {
	ss := [][]int{{1, 2, 1, 2}, {2, 2, 1, 2}, {2, 1, 2, 1, 2}, {1, 1, 1, 1, 1}, {2, 2, 2, 1}, {3, 1, 1, 2, 1}, {2, 3}, {2}, {1}, {}, {2, 2, 2, 2, 2}, {1, 3, 2, 2}, {3, 2, 2}, {1, 2, 2, 3, 2}}
	sa, sb := ss[vh.Choose("a", len(ss))], ss[vh.Choose("b", len(ss))]
	twoOps(vh.Choose("f", 15), sa, sb, true, true)
}

func C09_nil_operand() {
	t, _ := c09T("t")
	for f := 0; f < 6; f++ {
		y, err := cmpT(f, t, nil)
		bad(y, err, "nil operand")
		y, err = bin(f, t, nil)
		bad(y, err, "nil operand")
	}
	y, err := t.Dot(nil)
	bad(y, err, "nil operand")
	y, err = t.MatMul(nil)
	bad(y, err, "nil operand")
	_, err = t.Equals(nil)
	vh.Assert(err != nil, "nil operand: accepted")
	vh.Assert(tensor.BackPropagate(nil) != nil, "nil operand: accepted")
	vh.Assert(tensor.BackPropagate(t) == nil, "BackPropagate")
	vh.Assert(tensor.BackPropagate(t) == nil, "BackPropagate twice")
}

// --- components

type customInit struct {
	kind int
	n    int
}

func (c *customInit) Init(sh []int) (T, error) {
	switch c.kind {
	case 0:
		return nil, nil
	case 1:
		return tensor.Zeros([]int{c.n}, conf(true))
	case 2:
		return tensor.Zeros([]int{c.n, 1}, conf(true))
	case 3:
		return tensor.Zeros(nil, conf(true))
	case 4:
		return tensor.Zeros([]int{0}, conf(true)) // an error
	}
	return tensor.Zeros(sh, nil)
}

func C09_fc_new() {
	if vh.Choose("nilconf", 2) == 1 {
		l, err := layers.NewFC(nil)
		vh.Assert(err != nil && l == nil, "NewFC nil")
		return
	}
	in, out := anyInt("in"), anyInt("out")
	ok := in > 0 && out > 0
	if in > 0 {
		vh.Assume(in <= far/2)
	}
	if out > 0 {
		vh.Assume(out <= 4)
	}
	c := &layers.FCConfig{Inputs: in, Outputs: out}
	if vh.Choose("map", 2) == 1 {
		c.Initializers = map[string]layers.Initializer{}
		for _, key := range []string{"Weight", "Bias"} {
			switch vh.Choose(key, 4) {
			case 1:
				c.Initializers[key] = nil
				ok = false
			case 2:
				k := vh.Choose("kind", 6)
				n := 1 + vh.Choose("len", 4)
				c.Initializers[key] = &customInit{k, n}
				ok = ok && (k == 5 || (k == 1 && n == out))
			case 3:
				c.Initializers[key] = initializers.NewFull(nil)
			}
		}
		if vh.Choose("other", 2) == 1 {
			c.Initializers["Kernel"] = nil
		}
	}
	l, err := layers.NewFC(c)
	vh.Assert((err == nil) == ok, "NewFC: error")
	vh.Assert((l != nil) == ok, "NewFC: result")
	if l != nil {
		vh.Assert(sameShape(l.Weight.Shape(), []int{out}) && sameShape(l.Bias.Shape(), []int{out}), "NewFC: weights")
	}
}

// optional tensor
func optT(name string, ss [][]int) (T, []int) {
	k := vh.Choose(name, len(ss)+1)
	if k == 0 {
		return nil, nil
	}
	return mk(fillA(ss[k-1], 1), false), ss[k-1]
}

var fcShapes = [][]int{{}, {1}, {2}, {3}, {1, 1}, {2, 3}, {2, 1}, {1, 2}, {2, 2, 2}}

func C09_fc_forward() {
	l := &layers.FC{}
	w, sw := optT("w", fcShapes)
	b, sb := optT("b", fcShapes)
	l.Weight, l.Bias = w, b
	vh.Assert(len(l.Weights()) == 2, "Weights")
	switch vh.Choose("args", 4) {
	case 0:
		y, err := l.Forward()
		bad(y, err, "FC.Forward")
		return
	case 1:
		y, err := l.Forward(mk(fillA([]int{1, 1}, 1), false), mk(fillA([]int{1, 1}, 1), false))
		bad(y, err, "FC.Forward")
		return
	case 2:
		y, err := l.Forward(nil)
		bad(y, err, "FC.Forward")
		return
	}
	x, sx := optT("x", append(fcShapes, []int{3, 2}, []int{4, 1}, []int{1, 3}))
	y, err := l.Forward(x)
	ok := w != nil && b != nil && x != nil && len(sx) == 2
	if !ok {
		bad(y, err, "FC.Forward")
		return
	}
	if len(sw) == 1 && len(sb) == 1 { // as NewFC builds them
		if o, fit := bcShape([]int{sx[0], sw[0]}, sb); fit {
			tot(y, err, true, o, "FC.Forward")
		} else {
			bad(y, err, "FC.Forward")
		}
		return
	}
	vh.Assert((err == nil) == (y != nil), "FC.Forward: result and error") // other weights: no panic
}

func C09_input() {
	l := layers.NewInput()
	if vh.Choose("zero", 2) == 1 {
		l = &layers.Input{}
	}
	x := mk(fillA([]int{2}, 1), false)
	y, err := l.Forward()
	bad(y, err, "Input without SeedFunc")
	l.SeedFunc = func() T { return x }
	y, err = l.Forward()
	tot(y, err, true, []int{2}, "Input")
	y, err = l.Forward(x)
	bad(y, err, "Input with arguments")
	y, err = l.Forward(nil)
	bad(y, err, "Input with arguments")
	y, err = l.Forward(nil, x)
	bad(y, err, "Input with arguments")
}

func C09_activation() {
	sh := append(c09shapes, []int{4})[vh.Choose("s", len(c09shapes)+1)]
	x := mk(fillA(sh, 1), vh.Choose("track", 2) == 1)
	f, min := newAct(vh.Choose("act", 9), nil)
	y, err := f.Forward()
	bad(y, err, "activation without argument")
	y, err = f.Forward(nil)
	bad(y, err, "activation of nil")
	y, err = f.Forward(x, x)
	bad(y, err, "activation of two")
	y, err = f.Forward(x)
	tot(y, err, len(sh) >= min, sh, "activation")
}

type forwarder interface{ Forward(...T) (T, error) }

// newAct builds an activation and gives the least rank it takes.
func newAct(k int, m *float64) (forwarder, int) {
	switch k {
	case 0:
		return activations.NewRelu(), 0
	case 1:
		return activations.NewSigmoid(), 0
	case 2:
		return activations.NewTanh(), 0
	case 3:
		return activations.NewLeakyRelu(nil), 0
	case 4:
		if m == nil {
			return activations.NewLeakyRelu(&activations.LeakyReluConfig{M: vh.Float("m")}), 0
		}
		return activations.NewLeakyRelu(&activations.LeakyReluConfig{M: *m}), 0
	case 5:
		s, err := activations.NewSoftmax(nil)
		vh.Assert(err == nil && s != nil, "NewSoftmax nil")
		return s, 1
	case 6:
		return &activations.LeakyRelu{}, 0
	case 7:
		return &activations.Softmax{}, 1
	}
	d := vh.Int("dim", 0, far)
	s, err := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: d})
	vh.Assert(err == nil && s != nil, "NewSoftmax")
	if d > 6 {
		return s, 7
	}
	return s, vh.Conc(d) + 1
}

func C09_softmax_new() {
	d := anyInt("dim")
	s, err := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: d})
	vh.Assert((err == nil) == (d >= 0), "NewSoftmax: error")
	vh.Assert((s != nil) == (d >= 0), "NewSoftmax: result")
}

func C09_loss() {
	ss := [][]int{{}, {1}, {2}, {3}, {1, 1}, {2, 3}, {2, 1}, {1, 2}, {2, 2, 2}, {1, 1, 1, 1}, {3, 2}, {1, 3}}
	p, sp := optT("p", ss)
	t, st := optT("t", ss)
	k := vh.Choose("loss", 4)
	ok := p != nil && t != nil && sameShape(sp, st)
	r := 1
	if k == 2 {
		r = 2
	}
	ok = ok && len(sp) == r
	switch k {
	case 0:
		y, err := losses.NewMSE().Compute(p, t)
		tot(y, err, ok, []int{}, "MSE")
	case 1:
		y, err := losses.NewBCE().Compute(p, t)
		tot(y, err, ok, []int{}, "BCE")
	case 2:
		y, err := losses.NewCE().Compute(p, t)
		tot(y, err, ok, []int{}, "CE")
	case 3:
		a := metrics.NewAccuracy()
		if vh.Choose("zero", 2) == 1 {
			a = &metrics.Accuracy{}
		}
		r, err := a.Result()
		vh.Assert(err == nil && r == 0, "Accuracy.Result")
		err = a.Accumulate(p, t)
		vh.Assert((err == nil) == ok, "Accuracy: error")
		r, err = a.Result()
		vh.Assert(err == nil, "Accuracy.Result")
		w := 0.
		if ok {
			w = 1
		}
		vh.Eq(r, w, "Accuracy.Result")
	}
}

func C09_sgd() {
	var o *optimizers.SGD
	switch vh.Choose("conf", 3) {
	case 0:
		o = optimizers.NewSGD(nil)
	case 1:
		o = optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: specialF("lr")})
	case 2:
		o = &optimizers.SGD{}
	}
	vh.Assert(o.Update(nil) != nil, "Update nil pointer")
	var w T
	vh.Assert(o.Update(&w) != nil, "Update nil tensor")
	vh.Assert(w == nil, "Update nil tensor: replaced")
	t, sh := c09T("t")
	w = t
	vh.Assert(o.Update(&w) != nil, "Update without gradient")
	vh.Assert(w == t, "Update without gradient: replaced")
	t.ResetGradContext(true)
	if bp(t, "sgd") {
		err := o.Update(&w)
		tot(w, err, true, sh, "Update")
	}
}

func C09_initializer_new() {
	a, b := anyInt("a"), anyInt("b")
	x, y := specialF("x"), specialF("y")
	sh, okd := []int{1, 2}, true
	if vh.Choose("rank", 2) == 1 {
		d := vh.Int("d", -2, 3)
		okd = d > 0
		if okd {
			d = vh.Conc(d)
		}
		sh = []int{d}
	}
	vh.Assume(a < far/2 && b < far/2)
	var in layers.Initializer
	switch vh.Choose("kind", 13) {
	case 0:
		v, err := initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: a})
		newInit(err, v != nil, a > 0)
		if err == nil {
			in = v
		}
	case 1:
		v, err := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: a})
		newInit(err, v != nil, a > 0)
		if err == nil {
			in = v
		}
	case 2:
		v, err := initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: a, FanOut: b})
		newInit(err, v != nil, a > 0 && b > 0)
		if err == nil {
			in = v
		}
	case 3:
		v, err := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: a, FanOut: b})
		newInit(err, v != nil, a > 0 && b > 0)
		if err == nil {
			in = v
		}
	case 4:
		v, err := initializers.NewUniform(&initializers.UniformConfig{Lower: x, Upper: y})
		newInit(err, v != nil, x < y)
		if err == nil {
			in = v
		}
	case 5:
		v, err := initializers.NewNormal(&initializers.NormalConfig{Mean: x, StdDev: y})
		newInit(err, v != nil, y > 0)
		if err == nil {
			in = v
		}
	case 6:
		in = initializers.NewFull(&initializers.FullConfig{Value: x})
	case 7:
		v, err := initializers.NewHeNormal(nil)
		newInit(err, v != nil, false)
	case 8:
		v, err := initializers.NewHeUniform(nil)
		newInit(err, v != nil, false)
	case 9:
		v, err := initializers.NewXavierNormal(nil)
		newInit(err, v != nil, false)
	case 10:
		v, err := initializers.NewXavierUniform(nil)
		newInit(err, v != nil, false)
	case 11:
		v, err := initializers.NewUniform(nil)
		newInit(err, v != nil, true)
		if err == nil {
			in = v
		}
	case 12:
		v, err := initializers.NewNormal(nil)
		newInit(err, v != nil, true)
		if err == nil {
			in = v
		}
	}
	if in == nil {
		return
	}
	t, err := in.Init(sh)
	tot(t, err, okd, sh, "Init")
	t, err = in.Init(nil)
	tot(t, err, true, []int{}, "Init nil")
}

func newInit(err error, has, ok bool) {
	vh.Assert((err == nil) == ok, "initializer: error")
	vh.Assert(has == ok, "initializer: result")
}

// a program of valid and rejected calls ends without a panic and can be
// back-propagated
func C09_program() {
	t, sh := c09T("t")
	y := T(t)
	for i := 0; i < pick(2, 3); i++ {
		d := vh.Int("dim", -1, 5)
		var u T
		var err error
		switch vh.Choose("op", 8) {
		case 0:
			u, err = y.SumAlong(d)
		case 1:
			u, err = y.MaxAlong(d)
		case 2:
			u, err = y.UnSqueeze(d)
		case 3:
			u, err = y.Squeeze(d)
		case 4:
			u, err = y.Flatten(d)
		case 5:
			u, err = y.Transpose()
		case 6:
			u, err = y.Mul(t)
		case 7:
			u, err = tensor.Concat([]T{y, t}, d)
		}
		vh.Assert((err == nil) == (u != nil), "program: result and error")
		if u != nil {
			y = u
		}
	}
	if len(sh) <= 2 {
		bp(y, "program")
	}
}
