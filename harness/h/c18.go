package h

import (
	"math"
	"sort"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/tensor"
	"github.com/sahandsafizadeh/qeep/zz_verif/vh"
)

// C18: initializers and random constructors. The executor makes every draw a
// fresh variable; each element has to be the right function of a draw of its
// own, free over the whole of its support. Natively, where draws cannot be
// observed, large samples are tested with bounds at eight standard errors.

// dist is a distribution: uniform over [p,q) or normal with mean p and deviation q.
type dist struct {
	kind string // u, n, or c for the constant p
	p, q float64
}

func uni(l, u float64) dist    { return dist{"u", l, u} }
func normal(m, s float64) dist { return dist{"n", m, s} }

type src struct {
	name  string
	d     dist
	track bool
	init  func(sh []int) (T, error)
}

// draws remembers the draws seen.
type draws map[int]bool

// take makes a tensor of shape sh and states everything about it.
func (seen draws) take(s *src, sh []int, label string) T {
	label += ": " + s.name
	in := cp(sh)
	t, err := s.init(in)
	if !good(t, err, label) {
		return nil
	}
	vh.Assert(sameShape(in, sh), label+": argument")
	for i := range in {
		in[i] = 77 // the caller's to change
	}
	ok := sameShape(t.Shape(), sh)
	vh.Assert(ok, label+": shape")
	if !ok {
		return t
	}
	a := read(t)
	l, u := s.d.p, s.d.q
	for _, x := range a.d {
		switch s.d.kind {
		case "c":
			vh.Eq(x, l, label)
			continue
		case "u":
			vh.Assert(x >= l && x < u, label+": support")
		}
		kind := vh.DrawKind(x, s.d.kind) == s.d.kind
		vh.Assert(kind, label+": one draw per element")
		id := vh.DrawID(x)
		vh.Assert(!seen[id] || !vh.Symbolic() && !repeats(s, sh), label+": fresh draws")
		seen[id] = true
		vh.Assert(vh.Unrestricted(x), label+": the whole support")
		want := x
		if vh.Symbolic() && kind {
			r := vh.Draw(x)
			down := vh.Test(vh.Deriv(x, r) < 0)
			switch {
			case s.d.kind == "u" && !down:
				want = l + (u-l)*r
			case s.d.kind == "u":
				want = u - (u-l)*r
			case !down:
				want = l + u*r
			default:
				want = l - u*r
			}
		}
		vh.Eq(x, want, label+": scale")
	}
	// tracked means that it receives a gradient
	y := t.Scale(2)
	if bp(y, label) {
		if s.track {
			gradIs(t, fillA(sh, 2), label+": tracked")
		} else {
			noGrad(t, label+": untracked")
		}
	}
	t.ResetGradContext(s.track)
	return t
}

// repeats tells a repeated draw from a coincidence (normal draws have few bits).
func repeats(s *src, sh []int) bool {
	n := 0
	vals := map[float64]bool{}
	for i := 0; i < 5; i++ {
		t, err := s.init(sh)
		if err != nil {
			return true
		}
		for _, x := range read(t).d {
			if vals[x] {
				n++
			}
			vals[x] = true
		}
	}
	return n > 2
}

// sampled states the moments of many draws of shape sh (natively only).
func sampled(s *src, sh []int, label string) {
	vh.Assert(vh.Symbolic() || s.d.kind == "c" || moments(s, sh), label+": "+s.name+": moments")
}

func moments(s *src, sh []int) bool {
	per := prod(sh)
	reps := 200000/per + 1
	pos := make([][]float64, per)
	var all []float64
	for i := 0; i < reps; i++ {
		t, err := s.init(sh)
		if err != nil || t == nil || !sameShape(t.Shape(), sh) {
			return false
		}
		for k, x := range read(t).d {
			pos[k] = append(pos[k], x)
			all = append(all, x)
		}
	}
	// in units of the distribution
	mean, sd, fourth := s.d.p, s.d.q, 3.
	if s.d.kind == "u" {
		w := s.d.q - s.d.p
		if math.IsInf(w, 0) {
			return true // checked for the support alone
		}
		mean, sd, fourth = s.d.p+w/2, w/math.Sqrt(12), 1.8
	}
	z := func(x float64) float64 { return (x - mean) / sd }
	fine := func(v []float64) bool {
		n := float64(len(v))
		if n < 500 {
			return true
		}
		m, q, c := 0., 0., 0.
		for i, x := range v {
			m += z(x)
			q += z(x) * z(x)
			if i > 0 {
				c += z(x) * z(v[i-1])
			}
		}
		return math.Abs(m/n) < 8/math.Sqrt(n) && math.Abs(q/n-1) < 8*math.Sqrt((fourth-1)/n) && math.Abs(c/n) < 8/math.Sqrt(n)
	}
	for _, v := range pos {
		if !fine(v) {
			return false
		}
	}
	if !fine(all) {
		return false
	}
	sort.Float64s(all)
	dup := 0
	for i := 1; i < len(all); i++ {
		if all[i] == all[i-1] {
			dup++
		}
	}
	lo, hi := z(all[0]), z(all[len(all)-1])
	if s.d.kind == "u" {
		e := math.Sqrt(3)
		if lo < -e-1e-9 || hi > e+1e-9 || lo > -e+1e-3 || hi < e-1e-3 {
			return false
		}
	} else if lo > -3.6 || hi < 3.6 || lo < -9 || hi > 9 {
		return false
	}
	// a range of few distinct numbers repeats them
	return dup < len(all)/100 || math.Abs(mean) > 1e5*sd
}

const nSrc = 14

// srcOf is every way to get an initialised tensor.
func srcOf(k int) *src {
	fan := func(name string) int { return vh.Int(name, 1, 1<<40) }
	newOK := func(err error) { vh.Assert(err == nil, "initializer") }
	s := &src{track: true}
	switch k {
	case 0:
		f := initializers.NewFull(nil)
		s.name, s.d, s.init = "Full nil", dist{"c", 0, 0}, f.Init
	case 1:
		c := &initializers.FullConfig{Value: vh.Float("value")}
		f := initializers.NewFull(c)
		s.name, s.d, s.init = "Full", dist{"c", c.Value, 0}, f.Init
		c.Value = 12
	case 2:
		u, err := initializers.NewUniform(nil)
		newOK(err)
		s.name, s.d, s.init = "Uniform nil", uni(-0.05, 0.05), u.Init
	case 3:
		l, h := bounds()
		c := &initializers.UniformConfig{Lower: l, Upper: h}
		u, err := initializers.NewUniform(c)
		newOK(err)
		s.name, s.d, s.init = "Uniform", uni(l, h), u.Init
		c.Lower, c.Upper = 5, 6
	case 4:
		n, err := initializers.NewNormal(nil)
		newOK(err)
		s.name, s.d, s.init = "Normal nil", normal(0, 0.05), n.Init
	case 5:
		m, d := vh.FloatIn("mean", -10, 10), vh.FloatIn("sd", 0.001, 100)
		c := &initializers.NormalConfig{Mean: m, StdDev: d}
		n, err := initializers.NewNormal(c)
		newOK(err)
		s.name, s.d, s.init = "Normal", normal(m, d), n.Init
		c.Mean, c.StdDev = 5, 6
	case 6:
		c := &initializers.HeUniformConfig{FanIn: fan("in")}
		b := math.Sqrt(6 / float64(c.FanIn))
		h, err := initializers.NewHeUniform(c)
		newOK(err)
		s.name, s.d, s.init = "HeUniform", uni(-b, b), h.Init
		c.FanIn = 3
	case 7:
		c := &initializers.HeNormalConfig{FanIn: fan("in")}
		d := math.Sqrt(2 / float64(c.FanIn))
		h, err := initializers.NewHeNormal(c)
		newOK(err)
		s.name, s.d, s.init = "HeNormal", normal(0, d), h.Init
		c.FanIn = 3
	case 8:
		c := &initializers.XavierUniformConfig{FanIn: fan("in"), FanOut: fan("out")}
		b := math.Sqrt(6 / (float64(c.FanIn) + float64(c.FanOut)))
		x, err := initializers.NewXavierUniform(c)
		newOK(err)
		s.name, s.d, s.init = "XavierUniform", uni(-b, b), x.Init
		c.FanIn, c.FanOut = 3, 4
	case 9:
		c := &initializers.XavierNormalConfig{FanIn: fan("in"), FanOut: fan("out")}
		d := math.Sqrt(2 / (float64(c.FanIn) + float64(c.FanOut)))
		x, err := initializers.NewXavierNormal(c)
		newOK(err)
		s.name, s.d, s.init = "XavierNormal", normal(0, d), x.Init
		c.FanIn, c.FanOut = 3, 4
	case 10, 11:
		l, h := bounds()
		s.track = k == 11
		c := conf(s.track)
		if !s.track && vh.Choose("nil conf", 2) == 1 {
			c = nil
		}
		s.name, s.d, s.init = "RandU", uni(l, h), func(sh []int) (T, error) { return tensor.RandU(sh, l, h, c) }
	case 12, 13:
		m, d := vh.FloatIn("mean", -10, 10), vh.FloatIn("sd", 0.001, 100)
		s.track = k == 13
		c := conf(s.track)
		if !s.track && vh.Choose("nil conf", 2) == 1 {
			c = nil
		}
		s.name, s.d, s.init = "RandN", normal(m, d), func(sh []int) (T, error) { return tensor.RandN(sh, m, d, c) }
	}
	return s
}

// bounds of a uniform distribution
func bounds() (l, u float64) {
	switch vh.Choose("bounds", 5) {
	case 0:
		l, u = vh.FloatIn("l", -100, 100), vh.FloatIn("u", -100, 100)
		vh.Assume(u-l > 1e-3)
	case 1:
		l = vh.FloatIn("l", -10, 10)
		u = -l
		vh.Assume(u-l > 1e-3)
	case 2:
		l, u = 0, vh.FloatIn("u", 1e-3, 10)
	case 3:
		l, u = vh.FloatIn("l", -10, -1e-3), 0
	case 4:
		l = vh.FloatIn("l", 1, 2)
		u = l + 0.5
	}
	return
}

func C18_value() {
	s := srcOf(vh.Choose("source", nSrc))
	sh := shape("t", 0, pick(3, 5), 3, pick(6, 12))
	seen := draws{}
	seen.take(s, sh, "value")
	seen.take(s, sh, "value: again")
	sampled(s, sh, "value")
}

func C18_rank() {
	s := srcOf(vh.Choose("source", nSrc))
	sh := [][]int{{1, 1, 1, 1}, {2, 1, 2, 3}, {1, 2, 1, 2, 2}, {2, 2, 2, 2, 2}, {1, 1, 1, 1, 1, 2}}[vh.Choose("shape", 5)]
	seen := draws{}
	seen.take(s, sh, "rank")
	sampled(s, sh, "rank")
}

func C18_large() {
	s := srcOf(vh.Choose("source", nSrc))
	sh := [][]int{{64}, {33, 1}, {8, 9}, {3, 4, 5}, {130}, {1, 65}, {4, 5, 6}, {16, 16}, {3, 4, 5, 2}}[vh.Choose("shape", pick(4, 9))]
	seen := draws{}
	seen.take(s, sh, "large")
	sampled(s, sh, "large")
}

// calls of several initializers in any order, one object for several shapes
func C18_history() {
	seen := draws{}
	ks := []int{1, 2, 4, 5, 6, 7, 8, 9, 10, 13}
	f := vh.Choose("first", len(ks))
	ss := []*src{srcOf(ks[f]), srcOf(ks[(f+vh.Choose("second", 4))%len(ks)])}
	shs := [][]int{{2}, {}, {2, 2}}
	for i := 0; i < pick(3, 4); i++ {
		seen.take(ss[vh.Choose("which", 2)], shs[vh.Choose("shape", 2+i%2)], "history")
	}
}

// the sources a layer uses
func C18_layer() {
	in, out := 1+vh.Choose("in", 5), 1+vh.Choose("out", 5)
	seen := draws{}
	for i := 0; i < 2; i++ {
		var l *layers.FC
		b := math.Sqrt(6 / float64(in+out))
		w := &src{name: "FC weight", d: uni(-b, b), track: true, init: func(sh []int) (T, error) {
			f, err := layers.NewFC(&layers.FCConfig{Inputs: in, Outputs: out})
			l = f
			return f.Weight, err
		}}
		if seen.take(w, []int{out}, "layer") == nil {
			return
		}
		eqT(l.Bias, fillA([]int{out}, 0), "layer: bias")
	}
}

// rejected calls draw nothing and change nothing
func C18_reject() {
	seen := draws{}
	s := srcOf(vh.Choose("source", nSrc))
	seen.take(s, []int{2}, "reject: before")
	t, err := s.init([][]int{{0}, {-1}, {2, 0}, {2, -3, 1}}[vh.Choose("bad", 4)])
	bad(t, err, "reject")
	seen.take(s, []int{2}, "reject: after")
	sampled(s, []int{2}, "reject")
}

// huge fans and ranges in floating point
func C18_extreme_exact() {
	const maxInt = 1<<63 - 1
	var t T
	var err error
	var l, u float64
	sh := []int{50}
	switch vh.Choose("k", 7) {
	case 0:
		x, e := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: maxInt, FanOut: []int{1, maxInt}[vh.Choose("out", 2)]})
		vh.Assert(e == nil, "extreme")
		l, u = -1e-9, 1e-9
		t, err = x.Init(sh)
	case 1:
		x, e := initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 5, FanOut: maxInt})
		vh.Assert(e == nil, "extreme")
		l, u = -1e-8, 1e-8
		t, err = x.Init(sh)
	case 2:
		x, e := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: maxInt})
		vh.Assert(e == nil, "extreme")
		l, u = -1e-9, 1e-9
		t, err = x.Init(sh)
	case 3:
		l, u = -math.MaxFloat64, math.MaxFloat64
		t, err = tensor.RandU(sh, l, u, nil)
	case 4:
		l = 1
		u = math.Nextafter(1, 2)
		t, err = tensor.RandU(sh, l, u, nil)
	case 5:
		l, u = 1e16, 1e16+4
		t, err = tensor.RandU(sh, l, u, nil)
	case 6:
		l, u = 0, 5e-324
		t, err = tensor.RandU(sh, l, u, nil)
	}
	if good(t, err, "extreme") {
		low := 0
		for _, x := range read(t).d {
			vh.Assert(vh.Symbolic() || x >= l && x < u, "extreme: support")
			if !vh.Symbolic() && x < 0 {
				low++
			}
		}
		if l < 0 { // symmetric
			vh.Assert(vh.Symbolic() || low > 0 && low < 50, "extreme: both halves")
		}
	}
}
