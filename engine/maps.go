package main

// Maps whose keys are not constants: the paths fork on which entry is meant.

func hasSym(v Value) bool {
	switch x := v.(type) {
	case *Node:
		return !x.isConst() && !x.special()
	case *Bool:
		return x.k != BTrue && x.k != BFalse
	case IfaceV:
		return x.t != nil && hasSym(x.v)
	case AggVal:
		for _, e := range x.f {
			if hasSym(e) {
				return true
			}
		}
	}
	return false
}

func (w *Worker) keyEq(a, b Value) *Bool {
	t := w.t
	node := func(v Value) *Node {
		switch x := v.(type) {
		case *Node:
			return x
		case int64:
			return t.Int(x)
		}
		return nil
	}
	switch x := a.(type) {
	case *Bool:
		if y, ok := b.(*Bool); ok {
			return t.Or(t.And(x, y), t.And(t.Not(x), t.Not(y)))
		}
		return t.False
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || (x.t == nil) != (y.t == nil) {
			return t.False
		}
		if x.t == nil {
			return t.True
		}
		if x.t.String() != y.t.String() {
			return t.False
		}
		return w.keyEq(x.v, y.v)
	case AggVal:
		y, ok := b.(AggVal)
		if !ok || len(x.f) != len(y.f) {
			return t.False
		}
		c := t.True
		for i := range x.f {
			c = t.And(c, w.keyEq(x.f[i], y.f[i]))
		}
		return c
	}
	if m, n := node(a), node(b); m != nil && n != nil {
		if m.special() || n.special() {
			return t.BoolConst(m.k == n.k && m.k != KNaN)
		}
		return t.EQ(m, n)
	}
	return t.BoolConst(a == b)
}

// find gives the entry of a key.
func (w *Worker) find(m *MapObj, k Value) (int, bool) {
	sym := hasSym(k)
	if !sym {
		if i, ok := m.m[mapKey(k)]; ok {
			return i, true
		}
		if m.nsym == 0 {
			return 0, false
		}
	}
	for i, o := range m.keys {
		if !m.live[i] || !sym && !hasSym(o) {
			continue
		}
		if w.decide(w.keyEq(k, o)) {
			return i, true
		}
	}
	return 0, false
}

// bind enters a key that was not found.
func (m *MapObj) bind(k Value, i int) {
	if hasSym(k) {
		m.nsym++
	} else {
		m.m[mapKey(k)] = i
	}
}

func (m *MapObj) unbind(k Value) {
	if hasSym(k) {
		m.nsym--
	} else {
		delete(m.m, mapKey(k))
	}
}

// reversed chooses, once per path, in which of two orders maps are iterated.
// The compiled code takes any order, so its runs are repeated.
func (w *Worker) reversed() bool {
	if w.initing {
		return false
	}
	if w.warming == nil && !w.ordered {
		w.ordered = true
		w.backwards = w.choose("@maporder", 2) == 1
	}
	return w.backwards
}
