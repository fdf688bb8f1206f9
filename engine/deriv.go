package main

// Deriv is the symbolic derivative of a term with respect to a variable. On a
// path the term is the smooth piece selected by the path condition.
func (t *TermTab) Deriv(y, x *Node, nonzero func(*Node) bool) *Node {
	memo := map[*Node]*Node{}
	dep := map[*Node]bool{}
	var depends func(n *Node) bool
	depends = func(n *Node) bool {
		if n == nil {
			return false
		}
		if n == x {
			return true
		}
		if v, ok := dep[n]; ok {
			return v
		}
		dep[n] = false
		v := depends(n.a) || depends(n.b)
		dep[n] = v
		return v
	}
	var d func(n *Node) *Node
	d = func(n *Node) *Node {
		if n == x {
			return t.One
		}
		if !depends(n) {
			return t.Zero
		}
		if r, ok := memo[n]; ok {
			return r
		}
		var r *Node
		switch n.k {
		case KAdd:
			r = t.Add(d(n.a), d(n.b))
		case KSub:
			r = t.Sub(d(n.a), d(n.b))
		case KMul:
			r = t.Add(t.Mul(d(n.a), n.b), t.Mul(n.a, d(n.b)))
		case KDiv:
			// (a'b - ab')/b^2
			r = t.Sub(t.Div(d(n.a), n.b), t.Div(t.Mul(n.a, d(n.b)), t.Mul(n.b, n.b)))
		case KIte:
			r = t.Ite(n.cond, d(n.a), d(n.b))
		case KExp:
			r = t.Mul(n, d(n.a))
		case KLog:
			r = t.Div(d(n.a), n.a)
		case KSin:
			r = t.Mul(t.Cos(n.a), d(n.a))
		case KCos:
			r = t.Neg(t.Mul(t.Sin(n.a), d(n.a)))
		case KSqrt:
			if !n.nz && !nonzero(n.a) {
				unmodelled("derivative of a square root that may be zero")
			}
			r = t.Div(d(n.a), t.Mul(t.Int(2), n))
		case KPow:
			if depends(n.b) {
				r = t.Mul(n, t.Add(t.Mul(d(n.b), t.Log(n.a)), t.Div(t.Mul(n.b, d(n.a)), n.a)))
			} else {
				r = t.Div(t.Mul(t.Mul(n, n.b), d(n.a)), n.a)
			}
		case KTrunc, KFloor, KIDiv:
			r = t.Zero
		default:
			unmodelled("derivative of %s", n.str(1))
		}
		memo[n] = r
		return r
	}
	return d(y)
}
