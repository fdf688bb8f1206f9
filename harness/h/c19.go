package h

import (
	"math"

	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C19: running accuracy.

// label is equal to another or different from it: pairs that are identical or differ
// by more than the library's tolerance.
func label(name string, other float64, has bool) float64 {
	k := 1
	if has {
		k = vh.Choose("equal", 2)
	}
	if k == 0 {
		return other
	}
	v := vh.Float(name)
	if has {
		vh.Assume(absf(v-other) > 1e-9)
	}
	return v
}

func matches(p, t []float64) int {
	n := 0
	for i := range p {
		if p[i] == t[i] {
			n++
		}
	}
	return n
}

func resultIs(c *metrics.Accuracy, correct, total int, label string) {
	r, err := c.Result()
	vh.Assert(err == nil, label+": error")
	want := 0.
	if total > 0 {
		want = float64(correct) / float64(total)
	}
	vh.Eq(r, want, label)
	vh.Assert(r >= 0 && r <= 1, label+": range")
}

// labels of a batch: every pattern of equal and different pairs
func batch(n int) (p, t []float64) {
	for i := 0; i < n; i++ {
		x := vh.Float("p")
		p = append(p, x)
		t = append(t, label("t", x, true))
	}
	return
}

func vec(v []float64, from int, name string) T { return operandOf(name, A{[]int{len(v)}, v}, from) }

func C19_single() {
	c := metrics.NewAccuracy()
	if vh.Choose("literal", 2) == 1 {
		c = &metrics.Accuracy{}
	}
	resultIs(c, 0, 0, "before")
	p, t := batch(1 + vh.Choose("n", pick(6, 9)))
	vh.Assert(c.Accumulate(vec(p, 1, "p"), vec(t, 1, "t")) == nil, "single")
	resultIs(c, matches(p, t), len(p), "single")
	resultIs(c, matches(p, t), len(p), "single: asked again")
}

// any provenance of the operands, which stay as they were
func C19_operands() {
	c := metrics.NewAccuracy()
	p, t := batch(3)
	tp, tt := vec(p, 4, "p"), vec(t, 4, "t")
	sp, st := snapOf(tp), snapOf(tt)
	vh.Assert(c.Accumulate(tp, tt) == nil, "operands")
	resultIs(c, matches(p, t), 3, "operands")
	sp.same("operands: prediction")
	st.same("operands: target")
	vh.Assert(c.Accumulate(tp, tp) == nil, "operands")
	resultIs(c, matches(p, t)+3, 6, "operands: itself")
}

// rejected runs one invalid call.
func rejected(c *metrics.Accuracy, k int, p, t T) {
	n := p.Shape()[0]
	v := arr("v", []int{n + 1})
	m := arr("m", []int{n, 1})
	s := arr("s", []int{})
	r := arr("r", []int{1, n})
	a, b := p, t
	switch k {
	case 0:
		a = nil
	case 1:
		b = nil
	case 2:
		a, b = nil, nil
	case 3:
		b = mk(v, false)
	case 4:
		a = mk(v, false)
	case 5:
		a = mk(m, false)
	case 6:
		b = mk(m, false)
	case 7:
		a, b = mk(m, false), mk(m, false)
	case 8:
		b = mk(s, false)
	case 9:
		a, b = mk(s, false), mk(s, false)
	case 10:
		a = mk(r, false)
	case 11: // would be repeated if it were taken
		if n == 1 {
			a = mk(v, false)
			break
		}
		b = mk(arr("o", []int{1}), false)
	}
	vh.Assert(c.Accumulate(a, b) != nil, "rejected: accepted")
}

const nRejected = 12

func C19_rejected() {
	c := metrics.NewAccuracy()
	correct, total := 0, 0
	if vh.Choose("first", 2) == 1 {
		p, t := batch(2)
		vh.Assert(c.Accumulate(vec(p, 1, "p"), vec(t, 1, "t")) == nil, "rejected")
		correct, total = matches(p, t), 2
	}
	q, u := batch(1 + vh.Choose("n", 2))
	tq, tu := vec(q, 1, "q"), vec(u, 1, "u")
	rejected(c, vh.Choose("k", nRejected), tq, tu)
	resultIs(c, correct, total, "rejected")
	rejected(c, vh.Choose("k", nRejected), tq, tu)
	resultIs(c, correct, total, "rejected: twice")
	vh.Assert(c.Accumulate(tq, tu) == nil, "rejected: next")
	resultIs(c, correct+matches(q, u), total+len(q), "rejected: next")
}

// any sequence of accepted and rejected calls on two counters
func C19_history() {
	cs := []*metrics.Accuracy{metrics.NewAccuracy(), metrics.NewAccuracy()}
	var correct, total [2]int
	for i := 0; i < pick(4, 6); i++ {
		k := vh.Choose("op", 5)
		w := 0
		if k == 4 {
			w = 1
		}
		switch k {
		case 0, 1, 2, 4: // some right, some wrong
			n := []int{1, 2, 3, 0, 2}[k]
			p := arr("p", []int{n})
			t := newA([]int{n})
			for j := range t.d {
				t.d[j] = p.d[j]
				if (i+j)%3 == 0 {
					t.d[j] += 1 + float64(j)
				} else {
					correct[w]++
				}
			}
			total[w] += n
			vh.Assert(cs[w].Accumulate(mk(p, false), mk(t, false)) == nil, "history")
		case 3:
			x := mk(arr("x", []int{2}), false)
			rejected(cs[w], (i*5)%nRejected, x, x)
		}
		resultIs(cs[0], correct[0], total[0], "history")
		resultIs(cs[1], correct[1], total[1], "history: other counter")
	}
}

// every split of the same data into consecutive batches
func C19_partition() {
	n := pick(5, 7)
	p, t := batch(n)
	a, b := metrics.NewAccuracy(), metrics.NewAccuracy()
	vh.Assert(a.Accumulate(vec(p, 1, "p"), vec(t, 1, "t")) == nil, "partition")
	for from := 0; from < n; {
		to := from + 1 + vh.Choose("len", n-from)
		vh.Assert(b.Accumulate(vec(p[from:to], 1, "p"), vec(t[from:to], 1, "t")) == nil, "partition")
		from = to
	}
	x, _ := a.Result()
	y, _ := b.Result()
	vh.Assert(x == y, "partition: exactly the same")
	resultIs(a, matches(p, t), n, "partition")
	resultIs(b, matches(p, t), n, "partition: batches")
}

// batches cut out of larger tensors and in another order
func C19_slices() {
	n := 6
	p := arr("p", []int{n})
	t := newA([]int{n})
	pattern := vh.Choose("pattern", 1<<n)
	for i := range t.d {
		t.d[i] = p.d[i]
		if pattern>>i&1 == 1 {
			t.d[i]++
		}
	}
	tp, tt := mk(p, false), mk(t, false)
	c := metrics.NewAccuracy()
	cut := 1 + vh.Choose("cut", n-1)
	parts := [][2]int{{cut, n}, {0, cut}}
	for _, r := range parts {
		x, err := tp.Slice(rngs(r[0], r[1]))
		if !good(x, err, "slices") {
			return
		}
		y, err := tt.Slice(rngs(r[0], r[1]))
		if !good(y, err, "slices") {
			return
		}
		vh.Assert(c.Accumulate(x, y) == nil, "slices")
	}
	resultIs(c, matches(p.d, t.d), n, "slices")
}

func C19_large() {
	n := []int{33, 64, 100, 257, 1000}[vh.Choose("n", 5)]
	step := 1 + vh.Choose("step", 4)
	p := arr("p", []int{n})
	t := newA([]int{n})
	for i := range t.d {
		t.d[i] = p.d[i]
		if i%step == step/2 {
			t.d[i] += 0.5
		}
	}
	c := metrics.NewAccuracy()
	for k := 1; k <= 3; k++ {
		vh.Assert(c.Accumulate(mk(p, false), mk(t, false)) == nil, "large")
		resultIs(c, k*matches(p.d, t.d), k*n, "large")
	}
}

// every number of matches in batches of every size, counted without rounding
func C19_counts_exact() {
	n := 1 + vh.Choose("n", pick(64, 150))
	k := vh.Choose("k", n+1)
	p, t := newA([]int{n}), newA([]int{n})
	for i := range p.d {
		p.d[i] = float64(i%4) / 4
		t.d[i] = p.d[i]
		if (i*7+3)%n >= k {
			t.d[i]++
		}
	}
	c := metrics.NewAccuracy()
	m := matches(p.d, t.d)
	for i := 1; i <= 2; i++ {
		vh.Assert(c.Accumulate(mk(p, false), mk(t, false)) == nil, "counts")
		resultIs(c, i*m, i*n, "counts")
	}
}

// many small batches
func C19_long() {
	c := metrics.NewAccuracy()
	every := 1 + vh.Choose("every", 5)
	size := 1 + vh.Choose("size", 4)
	correct, total := 0, 0
	for i := 0; i < pick(60, 200); i++ {
		n := 1 + (i*size)%4
		p := arr("p", []int{n})
		t := newA([]int{n})
		for j := range t.d {
			t.d[j] = p.d[j]
			if (total+j)%every == 0 {
				t.d[j]--
			} else {
				correct++
			}
		}
		total += n
		vh.Assert(c.Accumulate(mk(p, false), mk(t, false)) == nil, "long")
		if i%7 == 0 {
			vh.Assert(c.Accumulate(mk(p, false), nil) != nil, "long: accepted")
		}
		resultIs(c, correct, total, "long")
	}
}

// what the labels are computed from: an argmax-like mask
func C19_computed() {
	n := 3
	x := arr("x", []int{n})
	y := arr("y", []int{n})
	for i := range x.d {
		vh.Assume(absf(x.d[i]-y.d[i]) > 1e-9)
	}
	xt, yt := mk(x, vh.Choose("track", 2) == 1), mk(y, false)
	p, err := xt.Gt(yt)
	if !good(p, err, "computed") {
		return
	}
	want := 0
	t := newA([]int{n})
	for i := range t.d {
		t.d[i] = float64(vh.Choose("bit", 2))
		if (x.d[i] > y.d[i]) == (t.d[i] == 1) {
			want++
		}
	}
	c := metrics.NewAccuracy()
	vh.Assert(c.Accumulate(p, mk(t, false)) == nil, "computed")
	resultIs(c, want, n, "computed")
}

// special labels
func C19_special_exact() {
	v := []float64{0, math.Copysign(0, -1), 1, math.Inf(1), math.Inf(-1), math.NaN(), 1e300, -1e300, 1e-9, 1.0000001}
	p := []float64{v[vh.Choose("p", len(v))], v[vh.Choose("q", len(v))]}
	t := []float64{v[vh.Choose("t", len(v))], v[vh.Choose("u", len(v))]}
	c := metrics.NewAccuracy()
	vh.Assert(c.Accumulate(vec(p, 1, "p"), vec(t, 1, "t")) == nil, "special")
	resultIs(c, matches(p, t), 2, "special")
}
