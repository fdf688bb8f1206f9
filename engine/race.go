package main

// Footprints: which storage each side of a concurrent composition reads and
// writes, under which locks.

import "fmt"

type accessLog struct {
	w      *Worker
	start  int64
	reads  map[*Cell]*acc
	writes map[*Cell]*acc
	// accesses to own fresh storage after it may have been published
	lateR, lateW map[*Cell]*acc
	perm         map[*Cell]bool // sync.Once cells passed
	crit         bool           // wrote older storage while holding a lock
	pub          int64          // clock at the first possible publication
	parent       *accessLog
	kids         []*accessLog // goroutines not waited for yet
	seg          *accessLog   // of a kid: what its parent does meanwhile
}

func (w *Worker) newLog(parent *accessLog) *accessLog {
	l := &accessLog{w: w, start: w.clock, parent: parent, perm: map[*Cell]bool{},
		reads: map[*Cell]*acc{}, writes: map[*Cell]*acc{}, lateR: map[*Cell]*acc{}, lateW: map[*Cell]*acc{}}
	if parent != nil {
		for c := range parent.perm {
			l.perm[c] = true
		}
	}
	return l
}

type acc struct {
	locks map[*Cell]bool // true: held exclusively
	where string
}

func (l *accessLog) note(m map[*Cell]*acc, c *Cell, fr *frame) {
	if a, ok := m[c]; ok {
		for k := range a.locks {
			switch {
			case l.w.held[k] > 0:
				a.locks[k] = a.locks[k] && l.w.heldX[k]
			case l.perm[k]:
				a.locks[k] = false
			default:
				delete(a.locks, k)
			}
		}
		return
	}
	a := &acc{locks: map[*Cell]bool{}}
	for k := range l.perm {
		a.locks[k] = false
	}
	for k := range l.w.held {
		a.locks[k] = l.w.heldX[k]
	}
	if fr != nil {
		a.where = fr.fi.name
	}
	m[c] = a
}

func poolKey(c *Cell) any {
	if c.owner != nil {
		return c.owner
	}
	return c
}

func (l *accessLog) rec(c *Cell, fr *frame, write bool) {
	w := l.w
	if free, ok := w.pooled[poolKey(c)]; ok {
		if free {
			w.races++
			w.st.note("conflict: use after return to a pool in " + name(fr))
		}
		return
	}
	for x := l; x != nil; x = x.parent {
		m, late := x.reads, x.lateR
		if write {
			m, late = x.writes, x.lateW
		}
		x.note(m, c, fr)
		b := birth(c)
		if x.pub != 0 && b > x.start && b <= x.pub {
			x.note(late, c, fr)
		}
		if write && b <= x.start && len(w.held) > 0 {
			x.crit = true
		}
		if x == l {
			for _, k := range x.kids {
				if write {
					k.seg.note(k.seg.writes, c, fr)
				} else {
					k.seg.note(k.seg.reads, c, fr)
				}
			}
		}
	}
}

func name(fr *frame) string {
	if fr == nil {
		return "?"
	}
	return fr.fi.name
}

func (l *accessLog) read(c *Cell, fr *frame)  { l.both(c, fr, false) }
func (l *accessLog) write(c *Cell, fr *frame) { l.both(c, fr, true) }

func (l *accessLog) both(c *Cell, fr *frame, write bool) {
	l.rec(c, fr, write)
	if ag, ok := c.v.(*Agg); ok {
		for i := range ag.cells {
			l.both(&ag.cells[i], fr, write)
		}
	}
}

/* locks */

func (w *Worker) lock(c *Cell, excl bool) {
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if w.held[c] > 0 && (excl || w.heldX[c]) {
		panic(pathEnd{"hang", "lock already held by this goroutine"})
	}
	w.held[c]++
	w.heldX[c] = excl
}

func (w *Worker) unlock(c *Cell) {
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if w.held[c] == 0 {
		w.rtPanic("unlock of unlocked mutex")
	}
	w.held[c]--
	if w.held[c] == 0 {
		delete(w.held, c)
		delete(w.heldX, c)
	}
	for x := w.log; x != nil; x = x.parent {
		if x.crit && x.pub == 0 {
			x.pub = w.clock
		}
		if len(w.held) == 0 {
			x.crit = false
		}
	}
}

// published: an atomic store or the like made storage reachable for others.
func (w *Worker) published() {
	for x := w.log; x != nil; x = x.parent {
		if x.pub == 0 {
			x.pub = w.clock
		}
	}
}

// atomically runs an access that is ordered with all other atomic ones.
func (w *Worker) atomically(c *Cell, fr *frame, write bool) {
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if write {
		w.wrote(birth(c), fr)
	}
	if w.log == nil {
		return
	}
	k := &w.atomicKey
	w.held[k]++
	w.heldX[k] = true
	if write {
		w.log.write(c, fr)
	} else {
		w.log.read(c, fr)
	}
	w.held[k]--
	delete(w.held, k)
	delete(w.heldX, k)
	if write {
		w.published()
	}
}

/* pools: an item belongs to its holder between Get and Put */

func (w *Worker) poolMark(v Value, free bool) {
	if w.pooled == nil {
		w.pooled = map[any]bool{}
	}
	var walk func(v Value, ptr bool, d int)
	walk = func(v Value, ptr bool, d int) {
		if d > 4 {
			return
		}
		switch x := v.(type) {
		case IfaceV:
			walk(x.v, ptr, d)
		case *Cell:
			if ptr && x != nil {
				w.pooled[poolKey(x)] = free
				walk(x.v, false, d+1)
			}
		case *Agg:
			w.pooled[x] = free
			for i := range x.cells {
				walk(x.cells[i].v, false, d+1)
			}
		case AggVal:
			for _, f := range x.f {
				walk(f, false, d+1)
			}
		case SliceV:
			if x.a != nil {
				w.pooled[x.a] = free
				for i := range x.a.cells {
					walk(x.a.cells[i].v, false, d+1)
				}
			}
		}
	}
	walk(v, true, 0)
}

/* goroutines of the code under test */

// goroutine runs f at once, to completion: one schedule (stated bound). Under a
// log its footprint is compared with what may run at the same time.
func (w *Worker) goroutine(fr *frame, f Value, args []Value) {
	w.eagerGo++
	p := w.log
	if p == nil {
		w.call(fr, f, args, nil)
		return
	}
	held, heldX := w.held, w.heldX
	w.held, w.heldX = map[*Cell]int{}, map[*Cell]bool{}
	k := w.newLog(p)
	k.seg = w.newLog(nil)
	w.log = k
	w.call(fr, f, args, nil)
	w.log = p
	w.held, w.heldX = held, heldX
	p.kids = append(p.kids, k)
}

// join waits for the goroutines started so far.
func (w *Worker) join() {
	if w.log == nil {
		return
	}
	ks := w.log.kids
	w.log.kids = nil
	for i, k := range ks {
		w.races += w.compare(k, k.seg, k.start)
		for _, l := range ks[:i] {
			w.races += w.compare(l, k, k.start)
		}
	}
}

func (w *Worker) logStart(id int64) {
	w.logs[id] = w.newLog(nil)
	w.log = w.logs[id]
}

func (w *Worker) logStop() {
	w.join()
	w.log = nil
}

func birth(c *Cell) int64 {
	if c.owner != nil {
		return c.owner.birth
	}
	return 0
}

// compare counts locations with unordered conflicting accesses.
func (w *Worker) compare(a, b *accessLog, start int64) int64 {
	n := int64(0)
	seen := map[*Cell]bool{}
	chk := func(x, y map[*Cell]*acc, fresh bool) {
		for c, p := range x {
			if seen[c] || (birth(c) > start) != fresh {
				continue
			}
			q, ok := y[c]
			if !ok {
				continue
			}
			ordered := false
			for l, ex := range p.locks {
				if ex2, ok := q.locks[l]; ok && (ex || ex2) {
					ordered = true
				}
			}
			if !ordered {
				seen[c] = true
				n++
				w.st.note(fmt.Sprintf("conflict: %s / %s", p.where, q.where))
			}
		}
	}
	chk(a.writes, b.writes, false)
	chk(a.writes, b.reads, false)
	chk(b.writes, a.reads, false)
	chk(a.lateW, b.writes, true)
	chk(a.lateW, b.reads, true)
	chk(a.lateR, b.writes, true)
	return n
}

func (w *Worker) conflicts(i, j int64) int64 {
	a, b := w.logs[i], w.logs[j]
	start := a.start
	if b.start < start {
		start = b.start
	}
	return w.compare(a, b, start) + w.races
}

func (w *Worker) parallel(fr *frame, f, g Value, label string) {
	if w.warming != nil {
		w.call(fr, f, nil, nil)
		w.call(fr, g, nil, nil)
		return
	}
	x, y := int64(1000+len(w.logs)), int64(1001+len(w.logs))
	first, second := f, g
	if w.choose("order", 2) == 1 {
		first, second = g, f
	}
	w.races = 0
	w.logStart(x)
	w.call(fr, first, nil, nil)
	w.logStop()
	w.logStart(y)
	w.logs[y].start = w.logs[x].start
	w.call(fr, second, nil, nil)
	w.logStop()
	w.assertB(w.t.BoolConst(w.conflicts(x, y) == 0), label)
}
