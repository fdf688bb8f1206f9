package main

// Symbolic numeric and boolean terms. Every worker owns one TermTab, so no locking.
//
// Numbers: Go float64 values are modelled as real numbers (plus the three
// special values NaN, +Inf, -Inf); Go integers as mathematical integers with an
// explicit wrap to 64 bit wherever interval bounds cannot exclude overflow.
// A Node is a raw expression DAG node; canon() gives its canonical form, a
// Laurent polynomial over atoms (see poly.go).

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KConst Kind = iota
	KVar
	KAdd
	KSub
	KMul
	KDiv
	KIte
	KExp
	KLog
	KSin
	KCos
	KSqrt
	KPow   // pow(a,b), a>0
	KAtan  // other smooth functions, uninterpreted; name holds which
	KTrunc // float -> int truncation toward zero (argument real)
	KFloor
	KIDiv // floor division by positive constant
	KNaN
	KPInf
	KNInf
)

type Node struct {
	id     int
	k      Kind
	rat    *big.Rat
	name   string
	isInt  bool
	a, b   *Node
	cond   *Bool
	lo, hi float64 // conservative bounds
	nz     bool    // known nonzero
	poly   *Poly
}

type BKind uint8

const (
	BTrue BKind = iota
	BFalse
	BVar
	BLT // a < b
	BLE // a <= b
	BEQ // a == b
	BAnd
	BOr
	BNot
)

type Bool struct {
	id   int
	k    BKind
	name string
	a, b *Node // comparison operands (raw)
	p    *Poly // canonical a-b (normalised by positive factor)
	x, y *Bool
}

type TermTab struct {
	nodes   map[string]*Node
	bools   map[string]*Bool
	nNode   int
	nBool   int
	True    *Bool
	False   *Bool
	NaN     *Node
	PInf    *Node
	NInf    *Node
	Zero    *Node
	One     *Node
	polys   map[string]*Poly
	monos   map[string]*Mono
	atoms   map[string]*Atom
	atomL   []*Atom
	monoL   []*Mono
	polyL   []*Poly
	smallI  [520]*Node
	zeroP   *Poly
	oneP    *Poly
	oneM    *Mono
	ratFlt  map[float64]*Node
	overCap int
}

func NewTermTab() *TermTab {
	t := &TermTab{
		nodes: map[string]*Node{}, bools: map[string]*Bool{},
		polys: map[string]*Poly{}, monos: map[string]*Mono{}, atoms: map[string]*Atom{},
		ratFlt: map[float64]*Node{},
	}
	t.True = &Bool{id: 0, k: BTrue}
	t.False = &Bool{id: 1, k: BFalse}
	t.nBool = 2
	t.oneM = t.mono(nil)
	t.zeroP = t.mkPoly(nil)
	t.oneP = t.polyConst(big.NewRat(1, 1))
	t.NaN = t.node(&Node{k: KNaN}, "nan")
	t.PInf = t.node(&Node{k: KPInf, lo: math.Inf(1), hi: math.Inf(1)}, "pinf")
	t.NInf = t.node(&Node{k: KNInf, lo: math.Inf(-1), hi: math.Inf(-1)}, "ninf")
	t.Zero = t.Int(0)
	t.One = t.Int(1)
	return t
}

func (t *TermTab) node(n *Node, key string) *Node {
	if e, ok := t.nodes[key]; ok {
		return e
	}
	n.id = t.nNode
	t.nNode++
	t.nodes[key] = n
	return n
}

func (n *Node) special() bool { return n.k >= KNaN }

func (n *Node) isConst() bool { return n.k == KConst }

func (t *TermTab) Rat(r *big.Rat) *Node {
	if r.IsInt() && r.Num().IsInt64() {
		return t.Int(r.Num().Int64())
	}
	n := &Node{k: KConst, rat: new(big.Rat).Set(r), isInt: r.IsInt()}
	f, exact := r.Float64()
	if exact {
		n.lo, n.hi = f, f
	} else {
		n.lo, n.hi = math.Nextafter(f, math.Inf(-1)), math.Nextafter(f, math.Inf(1))
	}
	n.nz = r.Sign() != 0
	if r.Sign() > 0 && n.lo < 0 {
		n.lo = 0
	}
	if r.Sign() < 0 && n.hi > 0 {
		n.hi = 0
	}
	return t.node(n, "c"+r.RatString())
}

func (t *TermTab) Int(v int64) *Node {
	if v >= -260 && v < 260 {
		if n := t.smallI[v+260]; n != nil {
			return n
		}
	}
	r := new(big.Rat).SetInt64(v)
	f := float64(v)
	n := &Node{k: KConst, rat: r, isInt: true, lo: f, hi: f, nz: v != 0}
	if int64(f) != v || f == 9.223372036854775808e18 {
		n.lo, n.hi = math.Nextafter(f, math.Inf(-1)), math.Nextafter(f, math.Inf(1))
	}
	n = t.node(n, "c"+r.RatString())
	if v >= -260 && v < 260 {
		t.smallI[v+260] = n
	}
	return n
}

func (t *TermTab) Float(f float64) *Node {
	if n, ok := t.ratFlt[f]; ok {
		return n
	}
	switch {
	case math.IsNaN(f):
		return t.NaN
	case math.IsInf(f, 1):
		return t.PInf
	case math.IsInf(f, -1):
		return t.NInf
	}
	r := new(big.Rat)
	r.SetFloat64(f)
	n := t.Rat(r)
	t.ratFlt[f] = n
	return n
}

func (t *TermTab) Var(name string, isInt bool, lo, hi float64) *Node {
	key := "v" + name
	if e, ok := t.nodes[key]; ok {
		if e.lo == lo && e.hi == hi && e.isInt == isInt {
			return e
		}
		key = fmt.Sprintf("v%s|%v|%v|%v", name, lo, hi, isInt)
		if e, ok := t.nodes[key]; ok {
			return e
		}
	}
	return t.node(&Node{k: KVar, name: name, isInt: isInt, lo: lo, hi: hi, nz: lo > 0 || hi < 0}, key)
}

func nk(k Kind, a, b *Node) string {
	buf := make([]byte, 0, 24)
	buf = append(buf, 'n', byte('A'+k))
	buf = strconv.AppendInt(buf, int64(a.id), 36)
	if b != nil {
		buf = append(buf, ',')
		buf = strconv.AppendInt(buf, int64(b.id), 36)
	}
	return string(buf)
}

func dn(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }
func up(f float64) float64 { return math.Nextafter(f, math.Inf(1)) }

func addLo(a, b float64) float64 {
	r := a + b
	if math.IsNaN(r) {
		return math.Inf(-1)
	}
	if r == 0 && a == 0 && b == 0 {
		return 0
	}
	if a == math.Trunc(a) && b == math.Trunc(b) && math.Abs(r) < 1<<52 {
		return r
	}
	return dn(r)
}
func addHi(a, b float64) float64 {
	r := a + b
	if math.IsNaN(r) {
		return math.Inf(1)
	}
	if r == 0 && a == 0 && b == 0 {
		return 0
	}
	if a == math.Trunc(a) && b == math.Trunc(b) && math.Abs(r) < 1<<52 {
		return r
	}
	return up(r)
}

func mul1(a, b float64) float64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r == 0 { // underflow must not lose the sign
		if (a > 0) == (b > 0) {
			return 5e-324
		}
		return -5e-324
	}
	return r
}

func mulBounds(al, ah, bl, bh float64) (lo, hi float64) {
	ps := [4]float64{mul1(al, bl), mul1(al, bh), mul1(ah, bl), mul1(ah, bh)}
	lo, hi = ps[0], ps[0]
	for _, p := range ps[1:] {
		lo = math.Min(lo, p)
		hi = math.Max(hi, p)
	}
	exact := al == math.Trunc(al) && ah == math.Trunc(ah) && bl == math.Trunc(bl) && bh == math.Trunc(bh) && math.Abs(lo) < 1<<52 && math.Abs(hi) < 1<<52
	if !exact {
		// sign of an exact product is exact; only the magnitude is rounded
		if lo != 0 {
			lo = dn(lo)
		}
		if hi != 0 {
			hi = up(hi)
		}
		if al >= 0 && bl >= 0 && lo < 0 {
			lo = 0
		}
		if ah <= 0 && bh <= 0 && lo < 0 {
			lo = 0
		}
		if (al >= 0 && bh <= 0 || ah <= 0 && bl >= 0) && hi > 0 {
			hi = 0
		}
	}
	return
}

func (t *TermTab) Add(a, b *Node) *Node {
	if a.special() || b.special() {
		return t.addSpecial(a, b)
	}
	if a.isConst() && b.isConst() {
		return t.Rat(new(big.Rat).Add(a.rat, b.rat))
	}
	if a.isConst() && a.rat.Sign() == 0 {
		return b
	}
	if b.isConst() && b.rat.Sign() == 0 {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	n := &Node{k: KAdd, a: a, b: b, isInt: a.isInt && b.isInt}
	n.lo, n.hi = addLo(a.lo, b.lo), addHi(a.hi, b.hi)
	n.nz = n.lo > 0 || n.hi < 0 || (a.lo >= 0 && b.lo >= 0 && (a.nz || b.nz)) || (a.hi <= 0 && b.hi <= 0 && (a.nz || b.nz))
	return t.node(n, nk(KAdd, a, b))
}

func (t *TermTab) addSpecial(a, b *Node) *Node {
	if a.k == KNaN || b.k == KNaN {
		return t.NaN
	}
	if a.special() && b.special() {
		if a.k == b.k {
			return a
		}
		return t.NaN
	}
	if a.special() {
		return a
	}
	return b
}

func (t *TermTab) Neg(a *Node) *Node {
	switch a.k {
	case KNaN:
		return a
	case KPInf:
		return t.NInf
	case KNInf:
		return t.PInf
	}
	return t.Mul(t.Int(-1), a)
}

func (t *TermTab) Sub(a, b *Node) *Node {
	if a.special() || b.special() {
		return t.addSpecial(a, t.Neg(b))
	}
	if a == b {
		return t.Zero
	}
	if a.isConst() && b.isConst() {
		return t.Rat(new(big.Rat).Sub(a.rat, b.rat))
	}
	if b.isConst() && b.rat.Sign() == 0 {
		return a
	}
	n := &Node{k: KSub, a: a, b: b, isInt: a.isInt && b.isInt}
	n.lo, n.hi = addLo(a.lo, -b.hi), addHi(a.hi, -b.lo)
	n.nz = n.lo > 0 || n.hi < 0
	return t.node(n, nk(KSub, a, b))
}

// Mul of two finite nodes; specials are resolved by the caller (they need
// sign decisions).
func (t *TermTab) Mul(a, b *Node) *Node {
	if a.special() || b.special() {
		panic("Mul special")
	}
	if a.isConst() && b.isConst() {
		return t.Rat(new(big.Rat).Mul(a.rat, b.rat))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.rat.Sign() == 0 {
			return t.Zero
		}
		if a == t.One {
			return b
		}
	}
	// a times a reciprocal is a quotient
	if !a.isConst() && a.k == KDiv && a.a == t.One {
		return t.Div(b, a.b)
	}
	if b.k == KDiv && b.a == t.One {
		return t.Div(a, b.b)
	}
	if !a.isConst() && a.id > b.id {
		a, b = b, a
	}
	n := &Node{k: KMul, a: a, b: b, isInt: a.isInt && b.isInt}
	n.lo, n.hi = mulBounds(a.lo, a.hi, b.lo, b.hi)
	if a == b && n.lo < 0 {
		n.lo = 0
	}
	n.nz = a.nz && b.nz
	return t.node(n, nk(KMul, a, b))
}

// Div: b known nonzero on the current path.
func (t *TermTab) Div(a, b *Node) *Node {
	if b.isConst() && a.isConst() {
		return t.Rat(new(big.Rat).Quo(a.rat, b.rat))
	}
	if a.isConst() && a.rat.Sign() == 0 {
		return t.Zero
	}
	if b == t.One {
		return a
	}
	n := &Node{k: KDiv, a: a, b: b}
	n.lo, n.hi = math.Inf(-1), math.Inf(1)
	if b.lo > 0 || b.hi < 0 {
		n.lo, n.hi = mulBounds(a.lo, a.hi, dn(1/b.hi), up(1/b.lo))
	} else if b.lo >= 0 {
		if a.lo >= 0 {
			n.lo = 0
		}
		if a.hi <= 0 {
			n.hi = 0
		}
	} else if b.hi <= 0 {
		if a.lo >= 0 {
			n.hi = 0
		}
		if a.hi <= 0 {
			n.lo = 0
		}
	}
	if b.k == KAdd && a.lo >= 0 && b.lo > 0 {
		if lo, hi, ok := shareBounds(a, b); ok {
			n.lo, n.hi = math.Max(n.lo, lo), math.Min(n.hi, hi)
		}
	}
	n.nz = a.nz
	return t.node(n, nk(KDiv, a, b))
}

// shareBounds bounds a/b where b is a sum with a among its non-negative addends.
func shareBounds(a, b *Node) (lo, hi float64, ok bool) {
	var rlo, rhi float64
	found := false
	n := 0
	var walk func(x *Node) bool
	walk = func(x *Node) bool {
		if n++; n > 400 {
			return false
		}
		if x.k == KAdd {
			return walk(x.a) && walk(x.b)
		}
		xl, xh := x.lo, x.hi
		if !found {
			if x == a {
				found = true
				return true
			}
			if a.isConst() && x.isConst() && x.rat.Cmp(a.rat) >= 0 {
				found = true
				xl, xh = math.Max(0, addLo(xl, -a.hi)), addHi(xh, -a.lo)
			}
		}
		if xl < 0 {
			return false
		}
		rlo, rhi = math.Max(0, addLo(rlo, xl)), addHi(rhi, xh)
		return true
	}
	if !walk(b) || !found {
		return 0, 0, false
	}
	// r -> a/(a+r) falls, a -> a/(a+r) rises
	lo, hi = 0, 1
	if a.lo > 0 && !math.IsInf(rhi, 1) {
		lo = math.Max(0, dn(dn(dn(a.lo/(a.lo+rhi)))))
	}
	if !math.IsInf(a.hi, 1) && a.hi > 0 {
		hi = math.Min(1, up(up(up(a.hi/(a.hi+rlo)))))
	}
	return lo, hi, true
}

func (t *TermTab) Ite(c *Bool, a, b *Node) *Node {
	if c == t.True || a == b {
		return a
	}
	if c == t.False {
		return b
	}
	if a.special() || b.special() {
		panic("Ite special")
	}
	if c.k == BNot {
		return t.Ite(c.x, b, a)
	}
	n := &Node{k: KIte, cond: c, a: a, b: b, isInt: a.isInt && b.isInt, lo: math.Min(a.lo, b.lo), hi: math.Max(a.hi, b.hi), nz: a.nz && b.nz}
	return t.node(n, "i"+strconv.Itoa(c.id)+","+strconv.Itoa(a.id)+","+strconv.Itoa(b.id))
}

func (t *TermTab) un(k Kind, a *Node, lo, hi float64, nz bool) *Node {
	return t.node(&Node{k: k, a: a, lo: lo, hi: hi, nz: nz}, nk(k, a, nil))
}

func (t *TermTab) Exp(a *Node) *Node {
	if a.isConst() && a.rat.Sign() == 0 {
		return t.One
	}
	lo, hi := 0.0, math.Inf(1)
	if a.hi < 709 {
		hi = up(math.Exp(a.hi) * (1 + 1e-15))
	}
	if a.lo > -700 {
		lo = math.Exp(a.lo) * (1 - 1e-14)
	}
	return t.un(KExp, a, lo, hi, true)
}

// Log: a > 0 known.
func (t *TermTab) Log(a *Node) *Node {
	if a == t.One {
		return t.Zero
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	if a.lo > 0 {
		lo = math.Log(a.lo)
		lo -= math.Abs(lo)*1e-14 + 1e-300
		if a.lo == 1 {
			lo = 0
		}
	}
	if !math.IsInf(a.hi, 1) && a.hi > 0 {
		hi = math.Log(a.hi)
		hi += math.Abs(hi)*1e-14 + 1e-300
		if a.hi == 1 {
			hi = 0
		}
	}
	return t.un(KLog, a, lo, hi, a.lo > 1 || (a.hi < 1))
}
func (t *TermTab) Sin(a *Node) *Node {
	if a.isConst() && a.rat.Sign() == 0 {
		return t.Zero
	}
	return t.un(KSin, a, -1, 1, false)
}
func (t *TermTab) Cos(a *Node) *Node {
	if a.isConst() && a.rat.Sign() == 0 {
		return t.One
	}
	// the cosine of a float64 is never exactly zero
	return t.un(KCos, a, -1, 1, true)
}

// Sqrt: a >= 0 known.
func (t *TermTab) Sqrt(a *Node) *Node {
	if a.isConst() {
		nn, dd := a.rat.Num(), a.rat.Denom()
		sn, sd := new(big.Int).Sqrt(nn), new(big.Int).Sqrt(dd)
		if new(big.Int).Mul(sn, sn).Cmp(nn) == 0 && new(big.Int).Mul(sd, sd).Cmp(dd) == 0 {
			return t.Rat(new(big.Rat).SetFrac(sn, sd))
		}
	}
	hi := math.Inf(1)
	if !math.IsInf(a.hi, 1) {
		hi = up(math.Sqrt(math.Max(a.hi, 0)))
	}
	lo := 0.0
	if a.lo > 0 {
		lo = dn(math.Sqrt(a.lo))
	}
	return t.un(KSqrt, a, lo, hi, a.nz)
}

// PowUF: a > 0 known.
func (t *TermTab) PowUF(a, b *Node) *Node {
	n := &Node{k: KPow, a: a, b: b, lo: 0, hi: math.Inf(1), nz: true}
	return t.node(n, nk(KPow, a, b))
}

// UF: some other smooth total function, uninterpreted.
func (t *TermTab) UF(name string, a *Node, lo, hi float64) *Node {
	return t.node(&Node{k: KAtan, name: name, a: a, lo: lo, hi: hi}, "u"+name+","+strconv.Itoa(a.id))
}

func (t *TermTab) TruncToInt(a *Node) *Node {
	if a.isInt {
		return a
	}
	if a.isConst() {
		q := new(big.Int).Quo(a.rat.Num(), a.rat.Denom())
		return t.Rat(new(big.Rat).SetInt(q))
	}
	p := t.canon(a)
	if t.polyIsInt(p) {
		// same value, integer-typed view
		n := &Node{k: KTrunc, a: a, isInt: true, lo: a.lo, hi: a.hi}
		n = t.node(n, nk(KTrunc, a, nil))
		return n
	}
	return t.node(&Node{k: KTrunc, a: a, isInt: true, lo: dn(a.lo) - 1, hi: up(a.hi) + 1}, nk(KTrunc, a, nil))
}

func (t *TermTab) Floor(a *Node) *Node {
	if a.isInt {
		return a
	}
	if a.isConst() {
		q := new(big.Int).Div(a.rat.Num(), a.rat.Denom())
		return t.Rat(new(big.Rat).SetInt(q))
	}
	return t.node(&Node{k: KFloor, a: a, isInt: true, lo: a.lo - 1, hi: a.hi}, nk(KFloor, a, nil))
}

// IDiv: floor division of integer a by positive integer constant c.
func (t *TermTab) IDiv(a *Node, c int64) *Node {
	if a.isConst() {
		q := new(big.Int).Div(a.rat.Num(), big.NewInt(c))
		return t.Rat(new(big.Rat).SetInt(q))
	}
	b := t.Int(c)
	return t.node(&Node{k: KIDiv, a: a, b: b, isInt: true, lo: math.Floor(dn(a.lo / float64(c))), hi: math.Ceil(up(a.hi / float64(c)))}, nk(KIDiv, a, b))
}

/* ---------- booleans ---------- */

func (t *TermTab) bool_(b *Bool, key string) *Bool {
	if e, ok := t.bools[key]; ok {
		return e
	}
	b.id = t.nBool
	t.nBool++
	t.bools[key] = b
	return b
}

func (t *TermTab) BoolConst(v bool) *Bool {
	if v {
		return t.True
	}
	return t.False
}

func (t *TermTab) BoolVar(name string) *Bool {
	return t.bool_(&Bool{k: BVar, name: name}, "v"+name)
}

func (t *TermTab) Not(b *Bool) *Bool {
	switch b.k {
	case BTrue:
		return t.False
	case BFalse:
		return t.True
	case BNot:
		return b.x
	case BLT:
		return t.LE(b.b, b.a)
	case BLE:
		return t.LT(b.b, b.a)
	}
	return t.bool_(&Bool{k: BNot, x: b}, "!"+strconv.Itoa(b.id))
}

func (t *TermTab) And(x, y *Bool) *Bool {
	if x == t.False || y == t.False {
		return t.False
	}
	if x == t.True || x == y {
		return y
	}
	if y == t.True {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	if y.k == BNot && y.x == x {
		return t.False
	}
	return t.bool_(&Bool{k: BAnd, x: x, y: y}, "&"+strconv.Itoa(x.id)+","+strconv.Itoa(y.id))
}

func (t *TermTab) Or(x, y *Bool) *Bool {
	if x == t.True || y == t.True {
		return t.True
	}
	if x == t.False || x == y {
		return y
	}
	if y == t.False {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	if y.k == BNot && y.x == x {
		return t.True
	}
	return t.bool_(&Bool{k: BOr, x: x, y: y}, "|"+strconv.Itoa(x.id)+","+strconv.Itoa(y.id))
}

func (t *TermTab) IteB(c, x, y *Bool) *Bool {
	if x == y {
		return x
	}
	return t.Or(t.And(c, x), t.And(t.Not(c), y))
}

// LT a<b with IEEE semantics for specials (NaN compares false).
func (t *TermTab) LT(a, b *Node) *Bool {
	if a.special() || b.special() {
		if a.k == KNaN || b.k == KNaN || a.k == KPInf || b.k == KNInf {
			return t.False
		}
		return t.BoolConst(a.k == KNInf || b.k == KPInf)
	}
	if a == b {
		return t.False
	}
	if a.isConst() && b.isConst() {
		return t.BoolConst(a.rat.Cmp(b.rat) < 0)
	}
	if a.hi < b.lo {
		return t.True
	}
	if a.lo >= b.hi {
		return t.False
	}
	if a.lo >= 0 && a.nz && b.isConst() && b.rat.Sign() <= 0 {
		return t.False
	}
	if b.lo >= 0 && b.nz && a.isConst() && a.rat.Sign() <= 0 {
		return t.True
	}
	return t.cmp(BLT, a, b)
}

func (t *TermTab) LE(a, b *Node) *Bool {
	if a.special() || b.special() {
		if a.k == KNaN || b.k == KNaN {
			return t.False
		}
		if a.k == b.k {
			return t.True
		}
		return t.BoolConst(a.k == KNInf || b.k == KPInf)
	}
	if a == b {
		return t.True
	}
	if a.isConst() && b.isConst() {
		return t.BoolConst(a.rat.Cmp(b.rat) <= 0)
	}
	if a.hi <= b.lo {
		return t.True
	}
	if a.lo > b.hi {
		return t.False
	}
	if a.lo >= 0 && a.nz && b.isConst() && b.rat.Sign() <= 0 {
		return t.False
	}
	return t.cmp(BLE, a, b)
}

func (t *TermTab) EQ(a, b *Node) *Bool {
	if a.special() || b.special() {
		return t.BoolConst(a.k == b.k && a.k != KNaN)
	}
	if a == b {
		return t.True
	}
	if a.isConst() && b.isConst() {
		return t.BoolConst(a.rat.Cmp(b.rat) == 0)
	}
	if a.hi < b.lo || a.lo > b.hi {
		return t.False
	}
	if (a.isConst() && a.rat.Sign() == 0 && b.nz) || (b.isConst() && b.rat.Sign() == 0 && a.nz) {
		return t.False
	}
	return t.cmp(BEQ, a, b)
}

func (t *TermTab) cmp(k BKind, a, b *Node) *Bool {
	p := t.polySub(t.canon(a), t.canon(b))
	if c, ok := p.constVal(); ok {
		s := c.Sign()
		switch k {
		case BLT:
			return t.BoolConst(s < 0)
		case BLE:
			return t.BoolConst(s <= 0)
		default:
			return t.BoolConst(s == 0)
		}
	}
	lead := p.ms[0].c
	f := new(big.Rat).Inv(lead)
	if k != BEQ {
		f.Abs(f)
	}
	p = t.polyScale(p, f)
	if s, ok := t.polySign(p); ok { // sign determined by structure
		switch k {
		case BLT:
			if s == sNeg {
				return t.True
			}
			if s == sPos || s == sNonNeg {
				return t.False
			}
		case BLE:
			if s == sNeg || s == sNonPos {
				return t.True
			}
			if s == sPos {
				return t.False
			}
		case BEQ:
			if s == sNeg || s == sPos {
				return t.False
			}
		}
	}
	return t.bool_(&Bool{k: k, a: a, b: b, p: p}, string([]byte{'C', byte('0' + k)})+strconv.Itoa(p.id))
}

/* ---------- debug printing ---------- */

func (n *Node) String() string { return n.str(6) }
func (n *Node) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", n.id)
	}
	switch n.k {
	case KConst:
		if n.rat.IsInt() {
			return n.rat.Num().String()
		}
		f, _ := n.rat.Float64()
		return strconv.FormatFloat(f, 'g', 6, 64)
	case KVar:
		return n.name
	case KAdd:
		return "(" + n.a.str(d-1) + "+" + n.b.str(d-1) + ")"
	case KSub:
		return "(" + n.a.str(d-1) + "-" + n.b.str(d-1) + ")"
	case KMul:
		return n.a.str(d-1) + "*" + n.b.str(d-1)
	case KDiv:
		return n.a.str(d-1) + "/" + n.b.str(d-1)
	case KIte:
		return "ite(" + n.cond.str(d-1) + "," + n.a.str(d-1) + "," + n.b.str(d-1) + ")"
	case KNaN:
		return "NaN"
	case KPInf:
		return "+Inf"
	case KNInf:
		return "-Inf"
	}
	names := map[Kind]string{KExp: "exp", KLog: "log", KSin: "sin", KCos: "cos", KSqrt: "sqrt", KPow: "pow", KTrunc: "trunc", KFloor: "floor", KIDiv: "idiv", KAtan: n.name}
	s := names[n.k] + "(" + n.a.str(d-1)
	if n.b != nil {
		s += "," + n.b.str(d-1)
	}
	return s + ")"
}

func (b *Bool) String() string { return b.str(6) }
func (b *Bool) str(d int) string {
	switch b.k {
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	case BVar:
		return b.name
	}
	if d <= 0 {
		return fmt.Sprintf("b%d", b.id)
	}
	switch b.k {
	case BLT:
		return b.a.str(d-1) + "<" + b.b.str(d-1)
	case BLE:
		return b.a.str(d-1) + "<=" + b.b.str(d-1)
	case BEQ:
		return b.a.str(d-1) + "==" + b.b.str(d-1)
	case BAnd:
		return "(" + b.x.str(d-1) + " && " + b.y.str(d-1) + ")"
	case BOr:
		return "(" + b.x.str(d-1) + " || " + b.y.str(d-1) + ")"
	case BNot:
		return "!" + strings.TrimSpace(b.x.str(d-1))
	}
	return "?"
}
