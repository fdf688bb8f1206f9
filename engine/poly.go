package main

// Canonical form of numeric terms: Laurent polynomials with rational
// coefficients over atoms (variables, exp/log/..., indicators of conditions,
// inverses of polynomials). Used to simplify comparisons and as the form in
// which queries are sent to the solver.

import (
	"math/big"
	"sort"
	"strconv"
)

type AKind uint8

const (
	AVar AKind = iota
	AExp
	ALog
	ASin
	ACos
	ASqrt
	APow
	AUF
	AIte
	AInd
	AInv
	ATrunc
	AFloor
	AIDiv
	AOpaque
)

type Atom struct {
	id    int
	kind  AKind
	name  string
	p, q  *Poly
	cond  *Bool
	isInt bool
	node  *Node
	pos   bool // known > 0
	nneg  bool // known >= 0
	npos  bool // known <= 0
	nz    bool
	depth int
}

type fac struct {
	a *Atom
	e int
}

type Mono struct {
	id int
	f  []fac
}

type mterm struct {
	c *big.Rat
	m *Mono
}

type Poly struct {
	id  int
	ms  []mterm
	opq bool
}

const polyCap = 3000

func (t *TermTab) atom(a *Atom, key string) *Atom {
	if e, ok := t.atoms[key]; ok {
		return e
	}
	a.id = len(t.atomL)
	for _, p := range []*Poly{a.p, a.q} {
		if p != nil {
			for _, m := range p.ms {
				for _, f := range m.m.f {
					if f.a.depth+1 > a.depth {
						a.depth = f.a.depth + 1
					}
				}
			}
		}
	}
	t.atoms[key] = a
	t.atomL = append(t.atomL, a)
	return a
}

func (t *TermTab) mono(f []fac) *Mono {
	buf := make([]byte, 0, 32)
	for _, x := range f {
		buf = strconv.AppendInt(buf, int64(x.a.id), 36)
		buf = append(buf, '^')
		buf = strconv.AppendInt(buf, int64(x.e), 36)
		buf = append(buf, '.')
	}
	k := string(buf)
	if e, ok := t.monos[k]; ok {
		return e
	}
	m := &Mono{id: len(t.monoL), f: append([]fac(nil), f...)}
	t.monoL = append(t.monoL, m)
	t.monos[k] = m
	return m
}

func (t *TermTab) monoMul(x, y *Mono) *Mono {
	if len(x.f) == 0 {
		return y
	}
	if len(y.f) == 0 {
		return x
	}
	r := make([]fac, 0, len(x.f)+len(y.f))
	i, j := 0, 0
	for i < len(x.f) || j < len(y.f) {
		switch {
		case j >= len(y.f) || (i < len(x.f) && x.f[i].a.id < y.f[j].a.id):
			r = append(r, x.f[i])
			i++
		case i >= len(x.f) || y.f[j].a.id < x.f[i].a.id:
			r = append(r, y.f[j])
			j++
		default:
			e := x.f[i].e + y.f[j].e
			if x.f[i].a.kind == AInd && e > 1 {
				e = 1
			}
			if e != 0 {
				r = append(r, fac{x.f[i].a, e})
			}
			i++
			j++
		}
	}
	return t.mono(r)
}

// mkPoly takes ownership of ms; must have distinct monomials, nonzero coefs.
func (t *TermTab) mkPoly(ms []mterm) *Poly {
	sort.Slice(ms, func(i, j int) bool { return ms[i].m.id < ms[j].m.id })
	buf := make([]byte, 0, 16*len(ms))
	for _, m := range ms {
		buf = strconv.AppendInt(buf, int64(m.m.id), 36)
		buf = append(buf, ':')
		buf = append(buf, m.c.RatString()...)
		buf = append(buf, ';')
	}
	k := string(buf)
	if e, ok := t.polys[k]; ok {
		return e
	}
	p := &Poly{id: len(t.polyL), ms: ms}
	t.polyL = append(t.polyL, p)
	t.polys[k] = p
	return p
}

func (t *TermTab) polyConst(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return t.mkPoly(nil)
	}
	return t.mkPoly([]mterm{{new(big.Rat).Set(r), t.oneM}})
}

func (p *Poly) constVal() (*big.Rat, bool) {
	if len(p.ms) == 0 {
		return new(big.Rat), true
	}
	if len(p.ms) == 1 && len(p.ms[0].m.f) == 0 {
		return p.ms[0].c, true
	}
	return nil, false
}

func (t *TermTab) polyAtom(a *Atom, e int) *Poly {
	return t.mkPoly([]mterm{{big.NewRat(1, 1), t.mono([]fac{{a, e}})}})
}

func (t *TermTab) polyAdd(a, b *Poly) *Poly { return t.polyLin(a, b, big.NewRat(1, 1)) }
func (t *TermTab) polySub(a, b *Poly) *Poly {
	if a == b {
		return t.zeroP
	}
	return t.polyLin(a, b, big.NewRat(-1, 1))
}

// a + k*b (both sorted by monomial id)
func (t *TermTab) polyLin(a, b *Poly, k *big.Rat) *Poly {
	if len(b.ms) == 0 {
		return a
	}
	r := make([]mterm, 0, len(a.ms)+len(b.ms))
	i, j := 0, 0
	for i < len(a.ms) || j < len(b.ms) {
		switch {
		case j >= len(b.ms) || (i < len(a.ms) && a.ms[i].m.id < b.ms[j].m.id):
			r = append(r, a.ms[i])
			i++
		case i >= len(a.ms) || b.ms[j].m.id < a.ms[i].m.id:
			r = append(r, mterm{new(big.Rat).Mul(k, b.ms[j].c), b.ms[j].m})
			j++
		default:
			c := new(big.Rat).Mul(k, b.ms[j].c)
			c.Add(c, a.ms[i].c)
			if c.Sign() != 0 {
				r = append(r, mterm{c, a.ms[i].m})
			}
			i++
			j++
		}
	}
	return t.mkPoly(r)
}

func (t *TermTab) polyScale(a *Poly, k *big.Rat) *Poly {
	if k.Sign() == 0 {
		return t.zeroP
	}
	if k.IsInt() && k.Num().IsInt64() && k.Num().Int64() == 1 {
		return a
	}
	r := make([]mterm, len(a.ms))
	for i, m := range a.ms {
		r[i] = mterm{new(big.Rat).Mul(k, m.c), m.m}
	}
	return t.mkPoly(r)
}

// polyMul returns nil if the product is too large.
func (t *TermTab) polyMul(a, b *Poly) *Poly {
	if c, ok := a.constVal(); ok {
		return t.polyScale(b, c)
	}
	if c, ok := b.constVal(); ok {
		return t.polyScale(a, c)
	}
	if len(a.ms)*len(b.ms) > polyCap*8 {
		return nil
	}
	guardCheck()
	acc := make(map[*Mono]*big.Rat, len(a.ms)*len(b.ms))
	for _, x := range a.ms {
		for _, y := range b.ms {
			m := t.monoMul(x.m, y.m)
			c := new(big.Rat).Mul(x.c, y.c)
			if o, ok := acc[m]; ok {
				o.Add(o, c)
			} else {
				acc[m] = c
			}
		}
	}
	r := make([]mterm, 0, len(acc))
	for m, c := range acc {
		if c.Sign() != 0 {
			r = append(r, mterm{c, m})
		}
	}
	if len(r) > polyCap {
		return nil
	}
	return t.mkPoly(r)
}

func (t *TermTab) polyPow(a *Poly, n int) *Poly {
	r := t.oneP
	for i := 0; i < n; i++ {
		r = t.polyMul(r, a)
		if r == nil {
			return nil
		}
	}
	return r
}

func (p *Poly) hasInd() bool {
	for _, m := range p.ms {
		for _, f := range m.m.f {
			if f.a.kind == AInd {
				return true
			}
		}
	}
	return false
}

// hasDen: top-level negative exponents or inverses.
func (p *Poly) hasDen() bool {
	for _, m := range p.ms {
		for _, f := range m.m.f {
			if f.a.kind == AInv || f.e < 0 {
				return true
			}
		}
	}
	return false
}

// inverse of a polynomial known to be nonzero.
func (t *TermTab) polyInv(b *Poly) *Poly {
	if c, ok := b.constVal(); ok {
		return t.polyConst(new(big.Rat).Inv(c))
	}
	if len(b.ms) == 1 && !b.hasInd() {
		m := b.ms[0]
		r := t.polyConst(new(big.Rat).Inv(m.c))
		for _, f := range m.m.f {
			if f.a.kind == AInv {
				pp := t.polyPow(f.a.p, f.e)
				if pp == nil {
					return nil
				}
				r = t.polyMul(r, pp)
			} else {
				r = t.polyMul(r, t.polyAtom(f.a, -f.e))
			}
			if r == nil {
				return nil
			}
		}
		return r
	}
	// factor out the monomial gcd (minimum exponents; atoms that occur in
	// every monomial, or anywhere with a negative exponent and known nonzero)
	outer := t.oneP
	if !b.hasInd() {
		min := map[*Atom]int{}
		cnt := map[*Atom]int{}
		for _, m := range b.ms {
			for _, f := range m.m.f {
				if f.a.kind == AInv {
					continue
				}
				if e, ok := min[f.a]; !ok || f.e < e {
					min[f.a] = f.e
				}
				cnt[f.a]++
			}
		}
		var fs []fac
		for a, e := range min {
			if cnt[a] < len(b.ms) && e > 0 {
				e = 0
			}
			if e < 0 || e > 0 {
				fs = append(fs, fac{a, -e})
			}
		}
		if len(fs) > 0 {
			sort.Slice(fs, func(i, j int) bool { return fs[i].a.id < fs[j].a.id })
			outer = t.mkPoly([]mterm{{big.NewRat(1, 1), t.mono(fs)}})
			b = t.polyMul(b, outer)
			if b == nil {
				return nil
			}
		}
	}
	lead := b.ms[0].c
	inv := new(big.Rat).Inv(lead)
	nb := t.polyScale(b, inv)
	s, ok := t.polySign(nb)
	a := t.atom(&Atom{kind: AInv, p: nb, nz: true, pos: ok && (s == sPos || s == sNonNeg), npos: ok && (s == sNeg || s == sNonPos)}, "inv"+strconv.Itoa(nb.id))
	return t.polyMul(t.polyScale(outer, inv), t.polyAtom(a, 1))
}

/* ---------- sign analysis ---------- */

const (
	sPos = iota
	sNonNeg
	sZero
	sNonPos
	sNeg
)

func (t *TermTab) polySign(p *Poly) (int, bool) {
	if len(p.ms) == 0 {
		return sZero, true
	}
	pos, neg, strictP, strictN := false, false, false, false
	for _, m := range p.ms {
		sg := m.c.Sign()
		strict := true
		for _, f := range m.m.f {
			if f.e%2 == 0 {
				if !f.a.nz && !f.a.pos && f.e > 0 {
					strict = false
				}
				continue
			}
			switch {
			case f.a.pos:
			case f.a.nneg:
				if !f.a.nz && f.e > 0 {
					strict = false
				}
			case f.a.npos:
				sg = -sg
				if !f.a.nz && f.e > 0 {
					strict = false
				}
			default:
				return 0, false
			}
		}
		if sg > 0 {
			pos = true
			strictP = strictP || strict
		} else {
			neg = true
			strictN = strictN || strict
		}
	}
	if pos && neg {
		return 0, false
	}
	if pos {
		if strictP {
			return sPos, true
		}
		return sNonNeg, true
	}
	if strictN {
		return sNeg, true
	}
	return sNonPos, true
}

func (t *TermTab) polyIsInt(p *Poly) bool {
	for _, m := range p.ms {
		if !m.c.IsInt() {
			return false
		}
		for _, f := range m.m.f {
			if f.e < 0 || !f.a.isInt {
				return false
			}
		}
	}
	return true
}

/* ---------- canonicalisation ---------- */

func (t *TermTab) canon(n *Node) *Poly {
	if n.poly != nil {
		return n.poly
	}
	p := t.canon1(n)
	if p == nil {
		p = t.polyAtom(t.atom(&Atom{kind: AOpaque, node: n, isInt: n.isInt, pos: n.lo >= 0 && n.nz, nneg: n.lo >= 0, npos: n.hi <= 0, nz: n.nz}, "op"+strconv.Itoa(n.id)), 1)
		t.overCap++
	}
	n.poly = p
	return p
}

// invOf is the inverse of a node; that of a product is the product of the inverses,
// which keeps the factors small.
func (t *TermTab) invOf(n *Node) *Poly {
	if n.k == KMul {
		x, y := t.invOf(n.a), t.invOf(n.b)
		if x == nil || y == nil {
			return nil
		}
		return t.polyMul(x, y)
	}
	p := t.canon(n)
	if p == nil {
		return nil
	}
	return t.polyInv(p)
}

func (t *TermTab) canon1(n *Node) *Poly {
	guardCheck()
	switch n.k {
	case KConst:
		return t.polyConst(n.rat)
	case KVar:
		return t.polyAtom(t.atom(&Atom{kind: AVar, node: n, isInt: n.isInt, name: n.name, pos: n.lo > 0, nneg: n.lo >= 0, npos: n.hi <= 0, nz: n.nz}, "v"+strconv.Itoa(n.id)), 1)
	case KAdd, KSub:
		a, b := t.canon(n.a), t.canon(n.b)
		if len(a.ms)+len(b.ms) > 2*polyCap {
			return nil
		}
		if n.k == KAdd {
			return t.polyAdd(a, b)
		}
		return t.polySub(a, b)
	case KMul:
		return t.polyMul(t.canon(n.a), t.canon(n.b))
	case KDiv:
		i := t.invOf(n.b)
		if i == nil {
			return nil
		}
		return t.polyMul(t.canon(n.a), i)
	case KIte:
		a, b := t.canon(n.a), t.canon(n.b)
		if a == b {
			return a
		}
		if a.hasDen() || b.hasDen() || len(a.ms)+len(b.ms) > 60 {
			at := t.atom(&Atom{kind: AIte, cond: n.cond, p: a, q: b, isInt: n.isInt, pos: n.lo > 0, nneg: n.lo >= 0, npos: n.hi <= 0, nz: n.nz}, "ite"+strconv.Itoa(n.cond.id)+","+strconv.Itoa(a.id)+","+strconv.Itoa(b.id))
			return t.polyAtom(at, 1)
		}
		ind := t.indicator(n.cond)
		d := t.polyMul(t.polySub(a, b), ind)
		if d == nil {
			return nil
		}
		return t.polyAdd(b, d)
	case KExp:
		p := t.canon(n.a)
		r := t.oneP
		for _, m := range p.ms {
			num, den := m.c.Num(), m.c.Denom()
			var base *Poly
			e := 0
			if num.IsInt64() && den.IsInt64() && num.Int64() <= 16 && num.Int64() >= -16 && den.Int64() <= 64 {
				base = t.mkPoly([]mterm{{big.NewRat(1, den.Int64()), m.m}})
				e = int(num.Int64())
			} else {
				c := new(big.Rat).Abs(m.c)
				base = t.mkPoly([]mterm{{c, m.m}})
				e = m.c.Sign()
			}
			at := t.atom(&Atom{kind: AExp, p: base, pos: true, nneg: true, nz: true}, "exp"+strconv.Itoa(base.id))
			r = t.polyMul(r, t.polyAtom(at, e))
		}
		return r
	case KLog:
		p := t.canon(n.a)
		at := t.atom(&Atom{kind: ALog, p: p, nneg: n.lo >= 0, npos: n.hi <= 0, nz: n.nz}, "log"+strconv.Itoa(p.id))
		return t.polyAtom(at, 1)
	case KSin, KCos:
		p := t.canon(n.a)
		neg := false
		if len(p.ms) > 0 && p.ms[0].c.Sign() < 0 {
			p = t.polyScale(p, big.NewRat(-1, 1))
			neg = n.k == KSin
		}
		var r *Poly
		if n.k == KSin {
			r = t.polyAtom(t.atom(&Atom{kind: ASin, p: p}, "sin"+strconv.Itoa(p.id)), 1)
		} else {
			r = t.polyAtom(t.atom(&Atom{kind: ACos, p: p, nz: true}, "cos"+strconv.Itoa(p.id)), 1)
		}
		if neg {
			r = t.polyScale(r, big.NewRat(-1, 1))
		}
		return r
	case KSqrt:
		p := t.canon(n.a)
		return t.polyAtom(t.atom(&Atom{kind: ASqrt, p: p, nneg: true, nz: n.nz, pos: n.nz}, "sqrt"+strconv.Itoa(p.id)), 1)
	case KPow:
		x, e := t.canon(n.a), t.canon(n.b)
		// split integer part of the constant term of the exponent
		k := 0
		for _, m := range e.ms {
			if len(m.m.f) == 0 {
				q := new(big.Int).Div(m.c.Num(), m.c.Denom())
				if q.IsInt64() && q.Int64() >= -8 && q.Int64() <= 8 {
					k = int(q.Int64())
				}
			}
		}
		e = t.polySub(e, t.polyConst(big.NewRat(int64(k), 1)))
		r := t.oneP
		if len(e.ms) > 0 {
			r = t.polyAtom(t.atom(&Atom{kind: APow, p: x, q: e, pos: true, nneg: true, nz: true}, "pow"+strconv.Itoa(x.id)+","+strconv.Itoa(e.id)), 1)
		}
		xx := x
		if k < 0 {
			xx = t.polyInv(x)
			k = -k
			if xx == nil {
				return nil
			}
		}
		pp := t.polyPow(xx, k)
		if pp == nil {
			return nil
		}
		return t.polyMul(r, pp)
	case KAtan:
		p := t.canon(n.a)
		return t.polyAtom(t.atom(&Atom{kind: AUF, name: n.name, p: p, nneg: n.lo >= 0, npos: n.hi <= 0}, "uf"+n.name+","+strconv.Itoa(p.id)), 1)
	case KTrunc:
		p := t.canon(n.a)
		if t.polyIsInt(p) {
			return p
		}
		return t.polyAtom(t.atom(&Atom{kind: ATrunc, p: p, isInt: true, nneg: n.a.lo >= 0}, "trunc"+strconv.Itoa(p.id)), 1)
	case KFloor:
		p := t.canon(n.a)
		return t.polyAtom(t.atom(&Atom{kind: AFloor, p: p, isInt: true, nneg: n.a.lo >= 0}, "floor"+strconv.Itoa(p.id)), 1)
	case KIDiv:
		p, q := t.canon(n.a), t.canon(n.b)
		return t.polyAtom(t.atom(&Atom{kind: AIDiv, p: p, q: q, isInt: true, nneg: n.a.lo >= 0}, "idiv"+strconv.Itoa(p.id)+","+strconv.Itoa(q.id)), 1)
	}
	panic("canon: " + n.String())
}

func (t *TermTab) indicator(c *Bool) *Poly {
	switch c.k {
	case BTrue:
		return t.oneP
	case BFalse:
		return t.zeroP
	case BNot:
		return t.polySub(t.oneP, t.indicator(c.x))
	case BLE:
		return t.polySub(t.oneP, t.indicator(t.LT(c.b, c.a)))
	case BAnd:
		if p := t.polyMul(t.indicator(c.x), t.indicator(c.y)); p != nil && len(p.ms) < 16 {
			return p
		}
	case BOr:
		x, y := t.indicator(c.x), t.indicator(c.y)
		if p := t.polyMul(x, y); p != nil && len(p.ms) < 16 {
			return t.polySub(t.polyAdd(x, y), p)
		}
	}
	a := t.atom(&Atom{kind: AInd, cond: c, isInt: true, nneg: true}, "ind"+strconv.Itoa(c.id))
	return t.polyAtom(a, 1)
}

/* ---------- clearing denominators ---------- */

// residual multiplies p by (nonzero) denominators and reduces squares of
// square roots and of sines; p is zero whenever the residual is zero, provided
// every denominator is nonzero. Returns nil if it grows too large.
func (t *TermTab) residual(p *Poly) *Poly {
	for iter := 0; iter < 60; iter++ {
		if len(p.ms) == 0 {
			return p
		}
		// negative exponents
		min := map[*Atom]int{}
		var inv *Atom
		maxE := 0
		for _, m := range p.ms {
			for _, f := range m.m.f {
				if f.e < 0 && f.e < min[f.a] {
					min[f.a] = f.e
				}
			}
		}
		if len(min) > 0 {
			var fs []fac
			for a, e := range min {
				fs = append(fs, fac{a, -e})
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].a.id < fs[j].a.id })
			p = t.polyMul(p, t.mkPoly([]mterm{{big.NewRat(1, 1), t.mono(fs)}}))
			if p == nil {
				return nil
			}
			continue
		}
		// reducible atom with the highest id
		for _, m := range p.ms {
			for _, f := range m.m.f {
				if (f.a.kind == AInv || (f.a.kind == ASqrt && f.e >= 2) || (f.a.kind == ASin && f.e >= 2)) && (inv == nil || f.a.id > inv.id) {
					inv = f.a
				}
			}
		}
		if inv == nil {
			return p
		}
		for _, m := range p.ms {
			for _, f := range m.m.f {
				if f.a == inv && f.e > maxE {
					maxE = f.e
				}
			}
		}
		// group by exponent of inv
		groups := make([][]mterm, maxE+1)
		for _, m := range p.ms {
			e := 0
			rest := make([]fac, 0, len(m.m.f))
			for _, f := range m.m.f {
				if f.a == inv {
					e = f.e
				} else {
					rest = append(rest, f)
				}
			}
			groups[e] = append(groups[e], mterm{m.c, t.mono(rest)})
		}
		acc := t.zeroP
		for e, g := range groups {
			if len(g) == 0 {
				continue
			}
			gp := t.mkPoly(append([]mterm(nil), g...))
			var k *Poly
			switch inv.kind {
			case AInv:
				k = t.polyPow(inv.p, maxE-e)
			case ASqrt:
				k = t.polyPow(inv.p, e/2)
				if k != nil && e%2 == 1 {
					k = t.polyMul(k, t.polyAtom(inv, 1))
				}
			case ASin:
				c := t.polyAtom(t.atom(&Atom{kind: ACos, p: inv.p}, "cos"+strconv.Itoa(inv.p.id)), 1)
				s2 := t.polySub(t.oneP, t.polyMul(c, c))
				k = t.polyPow(s2, e/2)
				if k != nil && e%2 == 1 {
					k = t.polyMul(k, t.polyAtom(inv, 1))
				}
			}
			if k == nil {
				return nil
			}
			pr := t.polyMul(gp, k)
			if pr == nil {
				return nil
			}
			acc = t.polyAdd(acc, pr)
		}
		p = acc
	}
	return nil
}
