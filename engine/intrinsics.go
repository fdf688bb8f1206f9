package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
)

type intrinsic func(w *Worker, fr *frame, a []Value) Value

var intrinsics map[string]intrinsic

const vhPkg = "github.com/sahandsafizadeh/qeep/zz_verif/vh"

func fl(v Value) *Node { return v.(*Node) }

func str(v Value) string {
	s, _ := v.(string)
	return s
}

func (w *Worker) bval(b bool) *Bool { return w.t.BoolConst(b) }

func (w *Worker) expOf(a *Node) *Node {
	t := w.t
	switch a.k {
	case KNaN:
		return a
	case KPInf:
		return a
	case KNInf:
		return t.Zero
	}
	if a.hi > 709.7 && w.decide(t.LT(t.Float(709.782712893384), a)) {
		return t.PInf
	}
	if a.lo < -745 && w.decide(t.LT(a, t.Float(-745.1332191019412))) {
		return t.Zero
	}
	return t.Exp(a)
}

func (w *Worker) logOf(a *Node) *Node {
	t := w.t
	switch a.k {
	case KNaN, KNInf:
		return t.NaN
	case KPInf:
		return a
	}
	if !(a.lo > 0 || (a.lo >= 0 && a.nz)) {
		if w.decide(t.LE(a, t.Zero)) {
			if w.decide(t.EQ(a, t.Zero)) {
				return t.NInf
			}
			return t.NaN
		}
	}
	return t.Log(a)
}

func (w *Worker) sqrtOf(a *Node) *Node {
	t := w.t
	switch a.k {
	case KNaN, KNInf:
		return t.NaN
	case KPInf:
		return a
	}
	if a.lo < 0 && w.decide(t.LT(a, t.Zero)) {
		return t.NaN
	}
	return t.Sqrt(a)
}

func (w *Worker) absOf(a *Node) *Node {
	t := w.t
	switch a.k {
	case KNaN:
		return a
	case KPInf, KNInf:
		return t.PInf
	}
	if a.lo >= 0 {
		return a
	}
	if a.hi <= 0 {
		return t.Neg(a)
	}
	if w.decide(t.LT(a, t.Zero)) {
		return t.Neg(a)
	}
	return a
}

func (w *Worker) ipow(x *Node, k int64) *Node {
	t := w.t
	if k == 0 {
		return t.One
	}
	neg := k < 0
	if neg {
		k = -k
	}
	r := x
	for i := int64(1); i < k; i++ {
		r = w.fmul(r, x)
	}
	if neg {
		return w.fdiv(t.One, r)
	}
	return r
}

func (w *Worker) powOf(x, y *Node) *Node {
	t := w.t
	if y.isConst() && y.rat.Sign() == 0 {
		return t.One
	}
	if x == t.One {
		return t.One
	}
	if x.k == KNaN || y.k == KNaN {
		if y.special() {
			if !x.special() && w.decide(t.EQ(x, t.One)) {
				return t.One
			}
		} else if w.decide(t.EQ(y, t.Zero)) {
			return t.One
		}
		return t.NaN
	}
	if y.special() {
		if x.special() {
			if y.k == KPInf {
				return t.PInf
			}
			return t.Zero
		}
		a := x
		if w.decide(t.LT(x, t.Zero)) {
			a = t.Neg(x)
		}
		if w.decide(t.EQ(a, t.One)) {
			return t.One
		}
		if w.decide(t.LT(a, t.One)) == (y.k == KNInf) {
			return t.PInf
		}
		return t.Zero
	}
	if x.special() && y.isConst() && y.rat.Sign() != 0 {
		odd := y.rat.IsInt() && y.rat.Num().Bit(0) == 1
		switch {
		case y.rat.Sign() < 0:
			return t.Zero
		case x.k == KNInf && odd:
			return t.NInf
		}
		return t.PInf
	}
	if !y.isConst() {
		if x.special() {
			unmodelled("pow of infinities")
		}
		for _, k := range []int64{0, 1, 2, -1, 3} {
			if w.decide(t.EQ(y, t.Int(k))) {
				return w.powOf(x, t.Int(k))
			}
		}
	}
	if y.isConst() && y.rat.IsInt() && y.rat.Num().IsInt64() {
		k := y.rat.Num().Int64()
		if k <= 16 && k >= -16 {
			if k < 0 && !x.special() && w.decide(t.EQ(x, t.Zero)) {
				return t.PInf // sign of zero not modelled
			}
			return w.ipow(x, k)
		}
		if x.isConst() && k <= 400 && k >= -400 {
			ak := k
			if ak < 0 {
				ak = -ak
			}
			if x.rat.Sign() == 0 {
				if k < 0 {
					return t.PInf
				}
				return t.Zero
			}
			n := new(big.Int).Exp(x.rat.Num(), big.NewInt(ak), nil)
			d := new(big.Int).Exp(x.rat.Denom(), big.NewInt(ak), nil)
			r := new(big.Rat).SetFrac(n, d)
			if k < 0 {
				r.Inv(r)
			}
			return t.Rat(r)
		}
		unmodelled("pow with exponent %d", k)
	}
	if x.special() {
		if x.k == KPInf && y.isConst() {
			if y.rat.Sign() > 0 {
				return x
			}
			return t.Zero
		}
		unmodelled("pow of infinity")
	}
	if y.isConst() && y.rat.Cmp(big.NewRat(1, 2)) == 0 {
		return w.sqrtOf(x)
	}
	// non-integer exponent
	if !(x.lo > 0 || x.lo >= 0 && x.nz) {
		if w.decide(t.LT(x, t.Zero)) {
			if !y.isConst() {
				unmodelled("pow of a negative base with a symbolic exponent")
			}
			return t.NaN
		}
		if w.decide(t.EQ(x, t.Zero)) {
			if w.decide(t.LT(y, t.Zero)) {
				return t.PInf
			}
			return t.Zero
		}
	}
	// x^(n+f) = x^n x^f, so that powers whose exponents differ by an integer compare
	n, rest := w.splitInt(y)
	r := w.ipow(x, n)
	switch {
	case rest == t.Zero:
		return r
	case rest.isConst() && rest.rat.Cmp(big.NewRat(1, 2)) == 0:
		return t.Mul(r, t.Sqrt(x))
	}
	return t.Mul(r, t.PowUF(x, rest))
}

// splitInt takes the integer part of the constant summands off an exponent.
func (w *Worker) splitInt(y *Node) (int64, *Node) {
	t := w.t
	c := new(big.Rat)
	var strip func(n *Node) *Node
	strip = func(n *Node) *Node {
		switch {
		case n.isConst():
			c.Add(c, n.rat)
			return t.Zero
		case n.k == KAdd && n.a.isConst():
			c.Add(c, n.a.rat)
			return strip(n.b)
		case n.k == KAdd && n.b.isConst():
			c.Add(c, n.b.rat)
			return strip(n.a)
		case n.k == KSub && n.b.isConst():
			c.Sub(c, n.b.rat)
			return strip(n.a)
		}
		return n
	}
	rest := strip(y)
	k := new(big.Int).Div(c.Num(), c.Denom()) // Euclidean: rounds down
	if !k.IsInt64() || k.Int64() > 16 || k.Int64() < -16 {
		return 0, y
	}
	c.Sub(c, new(big.Rat).SetInt(k))
	if c.Sign() != 0 {
		rest = t.Add(rest, t.Rat(c))
	}
	return k.Int64(), rest
}

func (w *Worker) trig(a *Node, f func(*Node) *Node) *Node {
	if a.special() {
		return w.t.NaN
	}
	return f(a)
}

func math1(f func(w *Worker, a *Node) *Node) intrinsic {
	return func(w *Worker, fr *frame, a []Value) Value { return f(w, fl(a[0])) }
}

func (w *Worker) half(a *Node) *Node { return w.fdiv(a, w.t.Int(2)) }

func (w *Worker) hyper(a *Node) (p, m *Node) { return w.expOf(a), w.expOf(w.t.Neg(a)) }

func fmtVal(v Value) any {
	switch x := v.(type) {
	case IfaceV:
		if x.t == nil {
			return nil
		}
		if c, ok := x.v.(*Cell); ok && c != nil {
			if ag, ok := c.v.(*Agg); ok && len(ag.cells) > 0 {
				if s, ok := ag.cells[0].v.(string); ok {
					return s
				}
			}
		}
		return fmtVal(x.v)
	case int64:
		return x
	case string:
		return x
	case *Bool:
		return x.k == BTrue
	case *Node:
		if x.isConst() {
			if x.isInt {
				return x.rat.Num().Int64()
			}
			f, _ := x.rat.Float64()
			return f
		}
		return "<sym>"
	}
	return "<v>"
}

func fmtMsg(a []Value) string {
	f := str(a[0])
	var args []any
	if len(a) > 1 {
		s := a[1].(SliceV)
		for i := 0; i < s.n; i++ {
			args = append(args, fmtVal(s.a.cells[s.off+i].v))
		}
	}
	return fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), args...)
}

func init() {
	nop := func(w *Worker, fr *frame, a []Value) Value { return nil }
	intrinsics = map[string]intrinsic{
		/* math */
		"math.Exp":  math1((*Worker).expOf),
		"math.Exp2": func(w *Worker, fr *frame, a []Value) Value { return w.powOf(w.t.Int(2), fl(a[0])) },
		"math.Expm1": math1(func(w *Worker, a *Node) *Node {
			return w.t.Sub(w.expOf(a), w.t.One)
		}),
		"math.Log": math1((*Worker).logOf),
		"math.Log1p": math1(func(w *Worker, a *Node) *Node {
			return w.logOf(w.t.Add(a, w.t.One))
		}),
		"math.Log2": math1(func(w *Worker, a *Node) *Node { return w.fdiv(w.logOf(a), w.t.Log(w.t.Int(2))) }),
		"math.Log10": math1(func(w *Worker, a *Node) *Node {
			return w.fdiv(w.logOf(a), w.t.Log(w.t.Int(10)))
		}),
		"math.Sqrt": math1((*Worker).sqrtOf),
		"math.Abs":  math1((*Worker).absOf),
		"math.Sin":  math1(func(w *Worker, a *Node) *Node { return w.trig(a, w.t.Sin) }),
		"math.Cos":  math1(func(w *Worker, a *Node) *Node { return w.trig(a, w.t.Cos) }),
		"math.Tan": math1(func(w *Worker, a *Node) *Node {
			if a.special() {
				return w.t.NaN
			}
			return w.fdiv(w.t.Sin(a), w.t.Cos(a))
		}),
		"math.Sinh": math1(func(w *Worker, a *Node) *Node {
			if a.special() {
				return a
			}
			if a.hi > 710.4 && w.decide(w.t.LT(w.t.Float(710.4758600739439), a)) {
				return w.t.PInf
			}
			if a.lo < -710.4 && w.decide(w.t.LT(a, w.t.Float(-710.4758600739439))) {
				return w.t.NInf
			}
			return w.half(w.t.Sub(w.t.Exp(a), w.t.Exp(w.t.Neg(a))))
		}),
		"math.Cosh": math1(func(w *Worker, a *Node) *Node {
			if a.special() {
				if a.k == KNaN {
					return a
				}
				return w.t.PInf
			}
			if a.hi > 710.4 && w.decide(w.t.LT(w.t.Float(710.4758600739439), a)) {
				return w.t.PInf
			}
			if a.lo < -710.4 && w.decide(w.t.LT(a, w.t.Float(-710.4758600739439))) {
				return w.t.PInf
			}
			return w.half(w.t.Add(w.t.Exp(a), w.t.Exp(w.t.Neg(a))))
		}),
		"math.Tanh": math1(func(w *Worker, a *Node) *Node {
			switch a.k {
			case KNaN:
				return a
			case KPInf:
				return w.t.One
			case KNInf:
				return w.t.Int(-1)
			}
			// (e^a - e^-a)/(e^a + e^-a), no overflow in math.Tanh
			p, m := w.t.Exp(a), w.t.Exp(w.t.Neg(a))
			return w.t.Div(w.t.Sub(p, m), w.t.Add(p, m))
		}),
		"math.Pow": func(w *Worker, fr *frame, a []Value) Value { return w.powOf(fl(a[0]), fl(a[1])) },
		"math.Inf": func(w *Worker, fr *frame, a []Value) Value {
			if a[0].(int64) >= 0 {
				return w.t.PInf
			}
			return w.t.NInf
		},
		"math.NaN":   func(w *Worker, fr *frame, a []Value) Value { return w.t.NaN },
		"math.IsNaN": func(w *Worker, fr *frame, a []Value) Value { return w.bval(fl(a[0]).k == KNaN) },
		"math.IsInf": func(w *Worker, fr *frame, a []Value) Value {
			s := a[1].(int64)
			k := fl(a[0]).k
			return w.bval(s >= 0 && k == KPInf || s <= 0 && k == KNInf)
		},
		"math.Max": func(w *Worker, fr *frame, a []Value) Value { return w.fminmax(true, fl(a[0]), fl(a[1])) },
		"math.Min": func(w *Worker, fr *frame, a []Value) Value { return w.fminmax(false, fl(a[0]), fl(a[1])) },
		"math.Floor": math1(func(w *Worker, a *Node) *Node {
			if a.special() {
				return a
			}
			return w.t.Floor(a)
		}),
		"math.Ceil": math1(func(w *Worker, a *Node) *Node {
			if a.special() {
				return w.t.Neg(w.t.Neg(a))
			}
			return w.t.Neg(w.t.Floor(w.t.Neg(a)))
		}),
		"math.Trunc": math1(func(w *Worker, a *Node) *Node {
			if a.special() {
				return a
			}
			return w.t.TruncToInt(a)
		}),
		"math.Round": math1(func(w *Worker, a *Node) *Node {
			if a.special() {
				return a
			}
			h := w.t.Rat(big.NewRat(1, 2))
			if w.decide(w.t.LT(a, w.t.Zero)) {
				return w.t.Neg(w.t.Floor(w.t.Add(w.t.Neg(a), h)))
			}
			return w.t.Floor(w.t.Add(a, h))
		}),
		"math.FMA": func(w *Worker, fr *frame, a []Value) Value {
			return w.t.Add(w.fmul(fl(a[0]), fl(a[1])), fl(a[2]))
		},
		"math.Signbit": func(w *Worker, fr *frame, a []Value) Value {
			x := fl(a[0])
			if x.special() {
				return w.bval(x.k == KNInf)
			}
			return w.t.LT(x, w.t.Zero)
		},
		"math.Copysign": func(w *Worker, fr *frame, a []Value) Value {
			x := w.absOf(fl(a[0]))
			s := fl(a[1])
			if s.k == KNInf || (!s.special() && w.decide(w.t.LT(s, w.t.Zero))) {
				return w.t.Neg(x)
			}
			return x
		},
		"math.Mod": func(w *Worker, fr *frame, a []Value) Value {
			x, y := fl(a[0]), fl(a[1])
			if x.special() || y.special() || w.decide(w.t.EQ(y, w.t.Zero)) {
				unmodelled("math.Mod special")
			}
			q := w.t.Div(x, y)
			return w.t.Sub(x, w.t.Mul(w.t.TruncToInt(q), y))
		},
		"math.Nextafter": func(w *Worker, fr *frame, a []Value) Value {
			x, y := fl(a[0]), fl(a[1])
			if x.k == KNaN || y.k == KNaN {
				return w.t.NaN
			}
			if x.special() && y.special() {
				if x.k == y.k {
					return y
				}
				x0 := math.MaxFloat64
				if x.k == KNInf {
					x0 = -x0
				}
				return w.t.Float(x0)
			}
			if x.special() {
				x0 := math.MaxFloat64
				if x.k == KNInf {
					x0 = -x0
				}
				return w.t.Float(x0)
			}
			if y.special() {
				if x.isConst() {
					fx, _ := x.rat.Float64()
					fy := math.Inf(1)
					if y.k == KNInf {
						fy = -fy
					}
					return w.t.Float(math.Nextafter(fx, fy))
				}
				d := w.fresh("ulp", 0, 1e293)
				w.assume(w.t.LT(w.t.Zero, d))
				if y.k == KNInf {
					return w.t.Sub(x, d)
				}
				return w.t.Add(x, d)
			}
			if x.isConst() && y.isConst() {
				fx, _ := x.rat.Float64()
				fy, _ := y.rat.Float64()
				return w.t.Float(math.Nextafter(fx, fy))
			}
			if w.decide(w.t.EQ(x, y)) {
				return y
			}
			// some value strictly beyond x towards y, at most y, within one ulp
			d := w.fresh("ulp", 0, 1e293)
			w.assume(w.t.LT(w.t.Zero, d))
			if w.decide(w.t.LT(x, y)) {
				r := w.t.Add(x, d)
				w.assume(w.t.LE(r, y))
				return r
			}
			r := w.t.Sub(x, d)
			w.assume(w.t.LE(y, r))
			return r
		},
		"math.Float64bits": func(w *Worker, fr *frame, a []Value) Value {
			x := fl(a[0])
			if x.isConst() {
				f, _ := x.rat.Float64()
				return int64(math.Float64bits(f))
			}
			unmodelled("Float64bits")
			return nil
		},
		"math.Float64frombits": func(w *Worker, fr *frame, a []Value) Value {
			if v, ok := a[0].(int64); ok {
				return w.t.Float(math.Float64frombits(uint64(v)))
			}
			unmodelled("Float64frombits")
			return nil
		},
		"math.archExp": nil, "math.archLog": nil,

		/* fmt, errors */
		"fmt.Errorf":  func(w *Worker, fr *frame, a []Value) Value { return w.mkError(fmtMsg(a)) },
		"fmt.Sprintf": func(w *Worker, fr *frame, a []Value) Value { return fmtMsg(a) },
		"fmt.Sprint":  func(w *Worker, fr *frame, a []Value) Value { return "<sprint>" },
		"fmt.Sprintln": func(w *Worker, fr *frame, a []Value) Value {
			return "<sprint>"
		},
		"fmt.Println": func(w *Worker, fr *frame, a []Value) Value { return Tuple{int64(0), IfaceV{}} },
		"fmt.Printf":  func(w *Worker, fr *frame, a []Value) Value { return Tuple{int64(0), IfaceV{}} },
		"fmt.Print":   func(w *Worker, fr *frame, a []Value) Value { return Tuple{int64(0), IfaceV{}} },
		"errors.New":  func(w *Worker, fr *frame, a []Value) Value { return w.mkError(str(a[0])) },

		/* sync: one schedule, lock sets recorded */
		"(*sync.Mutex).Lock":      func(w *Worker, fr *frame, a []Value) Value { w.lock(a[0].(*Cell), true); return nil },
		"(*sync.Mutex).Unlock":    func(w *Worker, fr *frame, a []Value) Value { w.unlock(a[0].(*Cell)); return nil },
		"(*sync.RWMutex).Lock":    func(w *Worker, fr *frame, a []Value) Value { w.lock(a[0].(*Cell), true); return nil },
		"(*sync.RWMutex).Unlock":  func(w *Worker, fr *frame, a []Value) Value { w.unlock(a[0].(*Cell)); return nil },
		"(*sync.RWMutex).RLock":   func(w *Worker, fr *frame, a []Value) Value { w.lock(a[0].(*Cell), false); return nil },
		"(*sync.RWMutex).RUnlock": func(w *Worker, fr *frame, a []Value) Value { w.unlock(a[0].(*Cell)); return nil },
		"(*sync.WaitGroup).Add":   nop,
		"(*sync.WaitGroup).Done":  nop,
		"(*sync.WaitGroup).Wait":  func(w *Worker, fr *frame, a []Value) Value { w.join(); return nil },
		"(*sync.WaitGroup).Go": func(w *Worker, fr *frame, a []Value) Value {
			w.goroutine(fr, a[1], nil)
			return nil
		},
		"(*sync.Once).Do": func(w *Worker, fr *frame, a []Value) Value {
			c := a[0].(*Cell)
			if !w.onces[c] {
				w.onces[c] = true
				w.wrote(birth(c), fr)
				w.lock(c, true)
				w.call(fr, a[1], nil, nil)
				w.unlock(c)
			}
			if w.log != nil {
				w.log.perm[c] = true
			}
			return nil
		},
		"(*sync.Pool).Get": func(w *Worker, fr *frame, a []Value) Value {
			c := a[0].(*Cell)
			if l := w.pools[c]; len(l) > 0 {
				v := l[len(l)-1]
				w.pools[c] = l[:len(l)-1]
				w.poolMark(v, false)
				return v
			}
			ag := c.v.(*Agg)
			nf := ag.cells[len(ag.cells)-1].v
			if cl, ok := nf.(*Closure); ok && cl != nil {
				return w.call(fr, cl, nil, nil)
			}
			return IfaceV{}
		},
		"(*sync.Pool).Put": func(w *Worker, fr *frame, a []Value) Value {
			c := a[0].(*Cell)
			w.pools[c] = append(w.pools[c], a[1])
			w.wrote(birth(c), fr)
			w.poolMark(a[1], true)
			return nil
		},
		"(*sync.Map).Load": func(w *Worker, fr *frame, a []Value) Value {
			m := w.smap(a[0].(*Cell))
			if i, ok := w.find(m, a[1]); ok {
				return Tuple{loadCell(m.vals[i]), w.t.True}
			}
			return Tuple{IfaceV{}, w.t.False}
		},
		"(*sync.Map).Store": func(w *Worker, fr *frame, a []Value) Value {
			m := w.smap(a[0].(*Cell))
			w.wrote(birth(a[0].(*Cell)), fr)
			l := w.log
			w.log = nil
			w.mapSet(fr, m, a[1], a[2], types.NewInterfaceType(nil, nil))
			w.log = l
			w.published()
			return nil
		},
		"(*sync.Map).LoadOrStore": func(w *Worker, fr *frame, a []Value) Value {
			m := w.smap(a[0].(*Cell))
			if i, ok := w.find(m, a[1]); ok {
				return Tuple{loadCell(m.vals[i]), w.t.True}
			}
			w.wrote(birth(a[0].(*Cell)), fr)
			l := w.log
			w.log = nil
			w.mapSet(fr, m, a[1], a[2], types.NewInterfaceType(nil, nil))
			w.log = l
			w.published()
			return Tuple{a[2], w.t.False}
		},
		"runtime.Gosched":    nop,
		"runtime.KeepAlive":  nop,
		"runtime.GC":         nop,
		"runtime.NumCPU":     func(w *Worker, fr *frame, a []Value) Value { return int64(8) },
		"runtime.GOMAXPROCS": func(w *Worker, fr *frame, a []Value) Value { return int64(8) },

		/* random sources: every draw an arbitrary value of its support */
		"golang.org/x/exp/rand.Float64":     func(w *Worker, fr *frame, a []Value) Value { return w.draw("u") },
		"golang.org/x/exp/rand.NormFloat64": func(w *Worker, fr *frame, a []Value) Value { return w.draw("n") },
		"golang.org/x/exp/rand.ExpFloat64":  func(w *Worker, fr *frame, a []Value) Value { return w.draw("e") },
		"math/rand.Float64":                 func(w *Worker, fr *frame, a []Value) Value { return w.draw("u") },
		"math/rand.NormFloat64":             func(w *Worker, fr *frame, a []Value) Value { return w.draw("n") },
		"math/rand/v2.Float64":              func(w *Worker, fr *frame, a []Value) Value { return w.draw("u") },
		"math/rand/v2.NormFloat64":          func(w *Worker, fr *frame, a []Value) Value { return w.draw("n") },
		"(*golang.org/x/exp/rand.Rand).Float64": func(w *Worker, fr *frame, a []Value) Value {
			return w.seededDraw(a[0], "u")
		},
		"(*golang.org/x/exp/rand.Rand).NormFloat64": func(w *Worker, fr *frame, a []Value) Value {
			return w.seededDraw(a[0], "n")
		},
		"(*math/rand.Rand).Float64":        func(w *Worker, fr *frame, a []Value) Value { return w.seededDraw(a[0], "u") },
		"(*math/rand.Rand).NormFloat64":    func(w *Worker, fr *frame, a []Value) Value { return w.seededDraw(a[0], "n") },
		"(*math/rand/v2.Rand).Float64":     func(w *Worker, fr *frame, a []Value) Value { return w.seededDraw(a[0], "u") },
		"(*math/rand/v2.Rand).NormFloat64": func(w *Worker, fr *frame, a []Value) Value { return w.seededDraw(a[0], "n") },
		"golang.org/x/exp/rand.NewSource":  func(w *Worker, fr *frame, a []Value) Value { return w.newSource("xexp", a[0]) },
		"math/rand.NewSource":              func(w *Worker, fr *frame, a []Value) Value { return w.newSource("mrand", a[0]) },
		"math/rand/v2.NewPCG": func(w *Worker, fr *frame, a []Value) Value {
			return w.newSourcePtr("pcg", fmt.Sprint(fmtVal(a[0]))+"/"+fmt.Sprint(fmtVal(a[1])))
		},
		"golang.org/x/exp/rand.New": func(w *Worker, fr *frame, a []Value) Value { return w.newRand(a[0]) },
		"math/rand.New":             func(w *Worker, fr *frame, a []Value) Value { return w.newRand(a[0]) },
		"math/rand/v2.New":          func(w *Worker, fr *frame, a []Value) Value { return w.newRand(a[0]) },

		"time.Now": func(w *Worker, fr *frame, a []Value) Value {
			return AggVal{[]Value{int64(0), int64(0), (*Cell)(nil)}}
		},
		"(time.Time).UnixNano": func(w *Worker, fr *frame, a []Value) Value {
			w.freshN++
			return w.t.Var(fmt.Sprintf("@time%d", w.freshN), true, 0, 9e18)
		},
		// a coarse clock may read the same for the whole of a run
		"(time.Time).Unix": func(w *Worker, fr *frame, a []Value) Value {
			return w.t.Var("@seconds", true, 0, 9e18)
		},
		"(time.Time).UnixMilli": func(w *Worker, fr *frame, a []Value) Value {
			return w.t.Var("@milliseconds", true, 0, 9e18)
		},
		"(time.Time).UnixMicro": func(w *Worker, fr *frame, a []Value) Value {
			w.freshN++
			return w.t.Var(fmt.Sprintf("@time%d", w.freshN), true, 0, 9e18)
		},

		/* harness API */
		vhPkg + ".Int": func(w *Worker, fr *frame, a []Value) Value {
			lo, hi := a[1].(int64), a[2].(int64)
			nm := w.uniq(str(a[0]))
			if lo == hi {
				return lo
			}
			if w.warming != nil {
				return w.warmInt(nm, lo, hi)
			}
			return w.input(w.t.Var(nm, true, float64(lo), float64(hi)))
		},
		vhPkg + ".Float": func(w *Worker, fr *frame, a []Value) Value {
			nm := w.uniq(str(a[0]))
			if w.warming != nil {
				return w.warmFloat(nm, -math.MaxFloat64, math.MaxFloat64)
			}
			return w.input(w.t.Var(nm, false, -math.MaxFloat64, math.MaxFloat64))
		},
		vhPkg + ".FloatIn": func(w *Worker, fr *frame, a []Value) Value {
			lo, _ := fl(a[1]).rat.Float64()
			hi, _ := fl(a[2]).rat.Float64()
			nm := w.uniq(str(a[0]))
			if w.warming != nil {
				return w.warmFloat(nm, lo, hi)
			}
			return w.input(w.t.Var(nm, false, lo, hi))
		},
		vhPkg + ".Bool": func(w *Worker, fr *frame, a []Value) Value {
			nm := w.uniq(str(a[0]))
			if w.warming != nil {
				return w.bval(w.warming.Bools[nm])
			}
			return w.t.BoolVar(nm)
		},
		vhPkg + ".Choose": func(w *Worker, fr *frame, a []Value) Value { return w.choose(str(a[0]), a[1].(int64)) },
		vhPkg + ".Assume": func(w *Worker, fr *frame, a []Value) Value {
			if w.warming != nil {
				if !w.warmBool(a[0].(*Bool)) {
					panic(pathEnd{"assume", ""})
				}
				return nil
			}
			w.flush()
			w.assume(a[0].(*Bool))
			return nil
		},
		vhPkg + ".Assert": func(w *Worker, fr *frame, a []Value) Value {
			if w.warming == nil {
				w.assertB(a[0].(*Bool), str(a[1]))
			}
			return nil
		},
		vhPkg + ".Eq": func(w *Worker, fr *frame, a []Value) Value {
			if w.warming == nil {
				w.assertEq(fl(a[0]), fl(a[1]), str(a[2]))
			}
			return nil
		},
		vhPkg + ".Cover": func(w *Worker, fr *frame, a []Value) Value { w.covers[str(a[0])] = true; return nil },
		vhPkg + ".Finite": func(w *Worker, fr *frame, a []Value) Value {
			return w.bval(!fl(a[0]).special())
		},
		vhPkg + ".Symbolic": func(w *Worker, fr *frame, a []Value) Value { return w.t.True },
		vhPkg + ".Thorough": func(w *Worker, fr *frame, a []Value) Value { return w.bval(w.cfg.thorough) },
		vhPkg + ".Note":     nop,
		vhPkg + ".Conc": func(w *Worker, fr *frame, a []Value) Value {
			if n, ok := a[0].(*Node); ok {
				return w.concInt(n)
			}
			return a[0]
		},
		vhPkg + ".Test":      func(w *Worker, fr *frame, a []Value) Value { return w.bval(w.decide(a[0].(*Bool))) },
		vhPkg + ".LogStart":  func(w *Worker, fr *frame, a []Value) Value { w.logStart(a[0].(int64)); return nil },
		vhPkg + ".LogStop":   func(w *Worker, fr *frame, a []Value) Value { w.logStop(); return nil },
		vhPkg + ".Conflicts": func(w *Worker, fr *frame, a []Value) Value { return w.conflicts(a[0].(int64), a[1].(int64)) },
		vhPkg + ".Parallel": func(w *Worker, fr *frame, a []Value) Value {
			w.parallel(fr, a[0], a[1], str(a[2]))
			return nil
		},
		vhPkg + ".DrawKind": func(w *Worker, fr *frame, a []Value) Value {
			ds := w.drawsOf(fl(a[0]))
			switch {
			case len(ds) == 0:
				return ""
			case len(ds) > 1:
				return "several"
			}
			return strings.TrimPrefix(ds[0].name, "@draw_")[:1]
		},
		vhPkg + ".DrawID": func(w *Worker, fr *frame, a []Value) Value {
			ds := w.drawsOf(fl(a[0]))
			if len(ds) != 1 {
				return int64(-1)
			}
			return int64(ds[0].id)
		},
		vhPkg + ".Draw": func(w *Worker, fr *frame, a []Value) Value {
			ds := w.drawsOf(fl(a[0]))
			if len(ds) != 1 {
				return w.t.Zero
			}
			return ds[0]
		},
		vhPkg + ".Unrestricted": func(w *Worker, fr *frame, a []Value) Value {
			ds := w.drawsOf(fl(a[0]))
			return w.bval(w.warming == nil && len(ds) == 1 && w.unrestricted(ds[0]))
		},
		vhPkg + ".Deriv": func(w *Worker, fr *frame, a []Value) Value {
			y, x := fl(a[0]), fl(a[1])
			nm := w.uniq("deriv")
			if w.warming != nil {
				return w.t.Zero
			}
			if x.k != KVar || y.special() {
				unmodelled("derivative of %s with respect to %s", y.str(1), x.str(1))
			}
			d := w.t.Deriv(y, x, func(n *Node) bool {
				return w.ask(w.cfg.proveTO, w.t.EQ(n, w.t.Zero)) == Unsat
			})
			w.derivs[nm] = d
			return d
		},
		vhPkg + ".Steps": func(w *Worker, fr *frame, a []Value) Value { return int64(w.steps) },
	}
	delete(intrinsics, "math.archExp")
	delete(intrinsics, "math.archLog")
	atomics(intrinsics)
}

func (w *Worker) fminmax(max bool, x, y *Node) *Node {
	t := w.t
	if x.k == KNaN || y.k == KNaN {
		return t.NaN
	}
	c := t.LT(x, y)
	if w.decide(c) == max {
		return y
	}
	return x
}
