package main

import "math/big"

// subst replaces variables by terms.
type subst struct {
	t    *TermTab
	m    map[*Node]*Node
	am   map[*Atom]*Node // functions of variables
	memo map[*Node]*Node
	bad  bool
}

func (s *subst) node(n *Node) *Node {
	if n == nil || n.special() || n.k == KConst {
		return n
	}
	if n.k == KVar {
		if r, ok := s.m[n]; ok {
			return r
		}
		return n
	}
	if r, ok := s.memo[n]; ok {
		return r
	}
	r := s.rebuild(n)
	if len(s.am) > 0 && (r.k == KSin || r.k == KCos || r.k == KExp || r.k == KLog) {
		if p := s.t.canon(r); len(p.ms) == 1 && len(p.ms[0].m.f) == 1 {
			f := p.ms[0].m.f[0]
			if u, ok := s.am[f.a]; ok && f.e == 1 {
				r = s.t.Mul(s.t.Rat(p.ms[0].c), u)
			}
		}
	}
	s.memo[n] = r
	return r
}

func (s *subst) rebuild(n *Node) *Node {
	t := s.t
	a, b := s.node(n.a), s.node(n.b)
	if n.k == KIte {
		c := s.cond(n.cond)
		return t.Ite(c, a, b)
	}
	if a == n.a && b == n.b {
		return n
	}
	neg := func(x *Node) bool { return x.isConst() && x.rat.Sign() < 0 }
	zero := func(x *Node) bool { return x.isConst() && x.rat.Sign() == 0 }
	switch n.k {
	case KAdd:
		return t.Add(a, b)
	case KSub:
		return t.Sub(a, b)
	case KMul:
		return t.Mul(a, b)
	case KDiv:
		if zero(b) {
			s.bad = true
			return n
		}
		return t.Div(a, b)
	case KExp:
		return t.Exp(a)
	case KLog:
		if zero(a) || neg(a) {
			s.bad = true
			return n
		}
		return t.Log(a)
	case KSin:
		return t.Sin(a)
	case KCos:
		return t.Cos(a)
	case KSqrt:
		if neg(a) {
			s.bad = true
			return n
		}
		return t.Sqrt(a)
	case KPow:
		if zero(a) || neg(a) {
			s.bad = true
			return n
		}
		return t.PowUF(a, b)
	case KAtan:
		return t.UF(n.name, a, n.lo, n.hi)
	case KTrunc:
		return t.TruncToInt(a)
	case KFloor:
		return t.Floor(a)
	case KIDiv:
		if n.b.isConst() && n.b.rat.IsInt() && n.b.rat.Num().IsInt64() {
			return t.IDiv(a, n.b.rat.Num().Int64())
		}
	}
	s.bad = true
	return n
}

func (s *subst) cond(c *Bool) *Bool {
	t := s.t
	switch c.k {
	case BLT:
		return t.LT(s.node(c.a), s.node(c.b))
	case BLE:
		return t.LE(s.node(c.a), s.node(c.b))
	case BEQ:
		return t.EQ(s.node(c.a), s.node(c.b))
	case BNot:
		return t.Not(s.cond(c.x))
	case BAnd:
		return t.And(s.cond(c.x), s.cond(c.y))
	case BOr:
		return t.Or(s.cond(c.x), s.cond(c.y))
	}
	return c
}

// equalities solves the equations of the path condition for variables; nil if
// there are none.
func (w *Worker) equalities() *subst {
	t := w.t
	var eqs [][2]*Node
	for _, c := range w.pc {
		switch c.k {
		case BEQ:
			eqs = append(eqs, [2]*Node{c.a, c.b})
		case BLE:
			if r := t.LE(c.b, c.a); r.id > c.id && w.pcset[r] {
				eqs = append(eqs, [2]*Node{c.a, c.b})
			}
		}
	}
	if len(eqs) == 0 {
		return nil
	}
	s := &subst{t: t, m: map[*Node]*Node{}, memo: map[*Node]*Node{}}
	for _, e := range eqs {
		a, b := s.node(e[0]), s.node(e[1])
		if s.bad || a.special() || b.special() {
			return nil
		}
		p := t.polySub(t.canon(a), t.canon(b))
		var v *Atom
		var cf *big.Rat
		uses := map[*Atom]int{}
		for _, m := range p.ms {
			for _, f := range m.m.f {
				uses[f.a]++
				if f.a.kind != AVar {
					for _, u := range w.atomVars(f.a) {
						uses[u] += 2
					}
				}
			}
		}
		for _, m := range p.ms {
			if len(m.m.f) == 1 && m.m.f[0].e == 1 && m.m.f[0].a.kind == AVar && uses[m.m.f[0].a] == 1 && !m.m.f[0].a.isInt {
				v, cf = m.m.f[0].a, m.c
				break
			}
		}
		if v == nil {
			s.function(p, uses)
			continue
		}
		var r *Node
		rest := t.polySub(t.polyAtom(v, 1), t.polyScale(p, new(big.Rat).Inv(cf)))
		if c, ok := rest.constVal(); ok {
			r = t.Rat(c)
		} else if t.canon(a) == t.polyAtom(v, 1) {
			r = b
		} else if t.canon(b) == t.polyAtom(v, 1) {
			r = a
		} else {
			r = t.Sub(v.node, t.Mul(t.Rat(new(big.Rat).Inv(cf)), t.Sub(a, b)))
		}
		if r.special() {
			continue
		}
		one := &subst{t: t, m: map[*Node]*Node{v.node: r}, memo: map[*Node]*Node{}}
		for k, x := range s.m {
			s.m[k] = one.node(x)
		}
		if one.bad {
			return nil
		}
		s.m[v.node] = r
		s.memo = map[*Node]*Node{}
	}
	if len(s.m) == 0 && len(s.am) == 0 {
		return nil
	}
	return s
}

// function solves p = 0 for the only function of variables in it.
func (s *subst) function(p *Poly, uses map[*Atom]int) {
	t := s.t
	var v *Atom
	var cf *big.Rat
	rest := t.Rat(new(big.Rat))
	for _, m := range p.ms {
		switch {
		case len(m.m.f) == 0:
			rest = t.Add(rest, t.Rat(m.c))
		case len(m.m.f) == 1 && m.m.f[0].e == 1 && m.m.f[0].a.kind == AVar:
			rest = t.Add(rest, t.Mul(t.Rat(m.c), m.m.f[0].a.node))
		case len(m.m.f) == 1 && m.m.f[0].e == 1 && v == nil:
			switch m.m.f[0].a.kind {
			case ASin, ACos, AExp, ALog:
				v, cf = m.m.f[0].a, m.c
			default:
				return
			}
		default:
			return
		}
	}
	if v == nil {
		return
	}
	if s.am == nil {
		s.am = map[*Atom]*Node{}
	}
	s.am[v] = t.Mul(t.Rat(new(big.Rat).Neg(new(big.Rat).Inv(cf))), rest)
	s.memo = map[*Node]*Node{}
}

// atomVars lists the variable atoms inside a composite atom.
func (w *Worker) atomVars(a *Atom) []*Atom {
	var out []*Atom
	seen := map[*Atom]bool{}
	var ofPoly func(p *Poly)
	var ofAtom func(a *Atom)
	var ofNode func(n *Node)
	var ofBool func(b *Bool)
	nseen := map[*Node]bool{}
	ofAtom = func(a *Atom) {
		if seen[a] {
			return
		}
		seen[a] = true
		if a.kind == AVar {
			out = append(out, a)
			return
		}
		ofPoly(a.p)
		ofPoly(a.q)
		ofBool(a.cond)
		if a.kind == AOpaque {
			ofNode(a.node)
		}
	}
	ofPoly = func(p *Poly) {
		if p == nil {
			return
		}
		for _, m := range p.ms {
			for _, f := range m.m.f {
				ofAtom(f.a)
			}
		}
	}
	ofNode = func(n *Node) {
		if n == nil || nseen[n] {
			return
		}
		nseen[n] = true
		if n.k == KVar {
			ofPoly(w.t.canon(n))
			return
		}
		ofNode(n.a)
		ofNode(n.b)
		ofBool(n.cond)
	}
	ofBool = func(b *Bool) {
		if b == nil {
			return
		}
		ofNode(b.a)
		ofNode(b.b)
		ofBool(b.x)
		ofBool(b.y)
	}
	ofAtom(a)
	return out
}
