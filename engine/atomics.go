package main

// sync/atomic: accesses ordered with one another.

func atomics(m map[string]intrinsic) {
	{
		const p = "sync/atomic."
		for _, T := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			m[p+"Load"+T] = func(w *Worker, fr *frame, a []Value) Value {
				c := a[0].(*Cell)
				w.atomically(c, fr, false)
				return c.v
			}
			m[p+"Store"+T] = func(w *Worker, fr *frame, a []Value) Value {
				c := a[0].(*Cell)
				w.atomically(c, fr, true)
				c.v = a[1]
				return nil
			}
			m[p+"Swap"+T] = func(w *Worker, fr *frame, a []Value) Value {
				c := a[0].(*Cell)
				w.atomically(c, fr, true)
				v := c.v
				c.v = a[1]
				return v
			}
			m[p+"CompareAndSwap"+T] = func(w *Worker, fr *frame, a []Value) Value {
				c := a[0].(*Cell)
				w.atomically(c, fr, true)
				if _, ok := c.v.(*Node); ok {
					unmodelled("compare-and-swap of a symbolic value")
				}
				if c.v != a[1] {
					return w.t.False
				}
				c.v = a[2]
				return w.t.True
			}
			bits := map[string]int{"Int32": 32, "Int64": 64, "Uint32": -32, "Uint64": 64, "Uintptr": 64}[T]
			if bits == 0 {
				continue
			}
			m[p+"Add"+T] = func(w *Worker, fr *frame, a []Value) Value {
				c := a[0].(*Cell)
				w.atomically(c, fr, true)
				x, ok := c.v.(int64)
				y, ok2 := a[1].(int64)
				if !ok || !ok2 {
					unmodelled("atomic addition of symbolic values")
				}
				x += y
				switch bits {
				case 32:
					x = int64(int32(x))
				case -32:
					x = int64(uint32(x))
				}
				c.v = x
				return x
			}
		}
		field := func(w *Worker, v Value) *Cell {
			c := v.(*Cell)
			if c == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			if ag, ok := c.v.(*Agg); ok && len(ag.cells) > 0 {
				return &ag.cells[0]
			}
			unmodelled("atomic.Value")
			return nil
		}
		m["(*sync/atomic.Value).Load"] = func(w *Worker, fr *frame, a []Value) Value {
			c := field(w, a[0])
			w.atomically(c, fr, false)
			return c.v
		}
		m["(*sync/atomic.Value).Store"] = func(w *Worker, fr *frame, a []Value) Value {
			c := field(w, a[0])
			w.atomically(c, fr, true)
			c.v = a[1]
			return nil
		}
	}
}
