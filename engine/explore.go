package main

// Path exploration: depth-first by re-execution along decision prefixes,
// shared by a pool of workers; every path ends with the solver deciding the
// obligations collected on it.

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	thorough   bool
	maxSteps   int
	maxAlloc   int
	branchTO   time.Duration
	proveTO    time.Duration
	z3         string
	seed       int64
	workers    int
	validate   int           // sampled paths replayed natively per harness
	rawFrac    float64       // share of paths whose equalities are also sent raw
	rawBudget  time.Duration // solver time spent on that per harness
	maxPaths   int
	harnessCap time.Duration
}

type dec struct {
	v      int64
	forced bool
}

type oblig struct {
	label string
	eq    bool
	a, b  *Node
	c     *Bool
}

type Worker struct {
	P   *Program
	cfg *Config
	run *HRun
	t   *TermTab
	s   *Solver

	// per path
	prefix    []dec
	trace     []dec
	pc        []*Bool
	pcset     map[*Bool]bool
	steps     int
	allocs    int
	clock     int64
	globals   map[*ssa.Global]*Cell
	obs       []oblig
	covers    map[string]bool
	names     map[string]int
	choices   map[string]int64
	freshN    int
	drawN     int
	ins       []*Node
	derivs    map[string]*Node
	vcache    map[string]Verdict
	bvars     map[*Bool][]int
	draws     []*Node
	log       *accessLog
	logs      map[int64]*accessLog
	held      map[*Cell]int
	heldX     map[*Cell]bool
	pooled    map[any]bool // storage managed by pools; true: lying in one
	races     int64
	atomicKey Cell
	onces     map[*Cell]bool
	pools     map[*Cell][]Value
	smaps     map[*Cell]*MapObj
	srcs      map[*Cell]*source
	eagerGo   int
	curSite   ssa.Instruction
	obsSeen   []oblig // all obligations in order, for validation
	reduced   bool
	initing   bool
	initClock int64 // storage up to here belongs to the packages
	shared    bool  // package-level state was written
	ordered   bool  // a map of several keys was iterated
	backwards bool  // ... from the last key to the first
	warming   *Case
	warmSet   []*Case
	warmN     int

	consts [][]Value
	fnHits map[int]int
	st     Stats
}

type Stats struct {
	paths, assumed, infeasible, hung, unmodelled int
	steps                                        int64
	decisions                                    int
	unknownBranch, cached                        int
	obligations, structural, solverDischarged    int
	inconclusive                                 int
	rawChecks, rawUnknown, rawDisagree           int
	validated, validMismatch, validSkipped       int
	eagerGo                                      int
	notes                                        map[string]int
	maxQuery                                     time.Duration
}

func (s *Stats) note(k string) {
	if s.notes == nil {
		s.notes = map[string]int{}
	}
	s.notes[k]++
}

func (s *Stats) add(o *Stats) {
	s.paths += o.paths
	s.assumed += o.assumed
	s.infeasible += o.infeasible
	s.hung += o.hung
	s.unmodelled += o.unmodelled
	s.steps += o.steps
	s.decisions += o.decisions
	s.unknownBranch += o.unknownBranch
	s.cached += o.cached
	s.obligations += o.obligations
	s.structural += o.structural
	s.solverDischarged += o.solverDischarged
	s.inconclusive += o.inconclusive
	s.rawChecks += o.rawChecks
	s.rawUnknown += o.rawUnknown
	s.rawDisagree += o.rawDisagree
	s.validated += o.validated
	s.validMismatch += o.validMismatch
	s.validSkipped += o.validSkipped
	s.eagerGo += o.eagerGo
	if o.maxQuery > s.maxQuery {
		s.maxQuery = o.maxQuery
	}
	for k, v := range o.notes {
		if s.notes == nil {
			s.notes = map[string]int{}
		}
		s.notes[k] += v
	}
}

// HRun is the exploration of one harness.
type HRun struct {
	rawTime    int64
	prop, name string
	fn         *ssa.Function
	mu         sync.Mutex
	cond       *sync.Cond
	queue      [][]dec
	active     int
	stop       bool
	truncated  string
	started    int
	st         Stats
	covers     map[string]int
	labels     map[string]int
	viol       []*Violation
	known      map[string]*Violation
	knownLab   func(label string) bool
	nrep       *Native
	deadline   time.Time
	fnHits     map[int]int
	sv         Solver
	samples    []string
	attempts   map[string]int
	t0         time.Time
	dur        time.Duration
	globalStop func() bool

	sharedState bool       // some path wrote package-level state
	pool        []warmCase // scenarios to run before others
	warm        [][]*Case
	rng         *rand.Rand
}

func (r *HRun) init() {
	r.cond = sync.NewCond(&r.mu)
	r.queue = [][]dec{{}}
	r.rng = rand.New(rand.NewSource(1))
}

type Violation struct {
	Harness, Label, Detail string
	Case                   *Case
	Known                  bool
}

func (w *Worker) resetPath(prefix []dec) {
	if w.t == nil || w.t.nNode > 400000 || len(w.t.polyL) > 150000 {
		w.t = NewTermTab()
		w.consts = nil
		w.vcache = map[string]Verdict{}
		w.bvars = map[*Bool][]int{}
	}
	w.ins = nil
	w.derivs = map[string]*Node{}
	w.prefix = prefix
	w.trace = w.trace[:0]
	w.pc = nil
	w.pcset = map[*Bool]bool{}
	w.steps, w.allocs, w.clock = 0, 0, 0
	w.globals = map[*ssa.Global]*Cell{}
	w.obs, w.obsSeen = nil, nil
	w.covers = map[string]bool{}
	w.names = map[string]int{}
	w.choices = map[string]int64{}
	w.freshN, w.drawN = 0, 0
	w.draws = nil
	w.log = nil
	w.logs = map[int64]*accessLog{}
	w.held, w.heldX = map[*Cell]int{}, map[*Cell]bool{}
	w.pooled, w.races = nil, 0
	w.onces = map[*Cell]bool{}
	w.pools = map[*Cell][]Value{}
	w.smaps = map[*Cell]*MapObj{}
	w.srcs = map[*Cell]*source{}
	w.eagerGo = 0
	w.reduced = false
	w.shared, w.warming, w.warmSet, w.warmN = false, nil, nil, 0
	w.ordered, w.backwards = false, false
}

/* ---------- decisions ---------- */

func (w *Worker) pushAlt(v int64) {
	alt := make([]dec, len(w.trace)+1)
	copy(alt, w.trace)
	alt[len(w.trace)] = dec{v: v}
	w.run.push(alt)
}

func (w *Worker) record(v int64, forced bool) {
	w.trace = append(w.trace, dec{v, forced})
}

func (w *Worker) addPC(c *Bool) {
	switch c.k {
	case BTrue:
		return
	case BAnd:
		w.addPC(c.x)
		w.addPC(c.y)
		return
	case BNot:
		if c.x.k == BOr {
			w.addPC(w.t.Not(c.x.x))
			w.addPC(w.t.Not(c.x.y))
			return
		}
	}
	if w.pcset[c] {
		return
	}
	w.pcset[c] = true
	w.pc = append(w.pc, c)
}

func (w *Worker) implied(c *Bool) (bool, bool) {
	switch c.k {
	case BTrue:
		return true, true
	case BFalse:
		return false, true
	case BAnd:
		x, okx := w.implied(c.x)
		y, oky := w.implied(c.y)
		if okx && !x || oky && !y {
			return false, true
		}
		if okx && oky {
			return true, true
		}
		return false, false
	case BOr:
		x, okx := w.implied(c.x)
		y, oky := w.implied(c.y)
		if okx && x || oky && y {
			return true, true
		}
		if okx && oky {
			return false, true
		}
		return false, false
	case BNot:
		x, ok := w.implied(c.x)
		return !x, ok
	}
	if w.pcset[c] {
		return true, true
	}
	n := w.t.Not(c)
	if w.pcset[n] {
		return false, true
	}
	// a<b implies a<=b, a!=b
	switch c.k {
	case BLE:
		if w.pcset[w.t.LT(c.a, c.b)] || w.pcset[w.t.EQ(c.a, c.b)] {
			return true, true
		}
	case BEQ:
		if w.pcset[w.t.LT(c.a, c.b)] || w.pcset[w.t.LT(c.b, c.a)] {
			return false, true
		}
	case BLT:
		if w.pcset[w.t.EQ(c.a, c.b)] || w.pcset[w.t.LT(c.b, c.a)] {
			return false, true
		}
	}
	return false, false
}

func (w *Worker) check(extra ...*Bool) Verdict {
	return w.ask(w.cfg.branchTO, extra...)
}

// ask decides the satisfiability of the path condition together with extra.
// The path condition is satisfiable (an invariant of execution), so only the
// conjuncts connected to extra through shared variables matter; verdicts are
// cached per set of conjuncts.
func (w *Worker) ask(timeout time.Duration, extra ...*Bool) Verdict {
	conds := w.slice(extra)
	ids := make([]int, len(conds))
	for i, c := range conds {
		ids[i] = c.id
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if v, ok := w.vcache[key]; ok {
		w.st.cached++
		return v
	}
	t0 := time.Now()
	v, _ := w.s.Check(w.t, conds, timeout, false)
	if d := time.Since(t0); d > w.st.maxQuery {
		w.st.maxQuery = d
	}
	if v != Unknown {
		w.vcache[key] = v
	}
	return v
}

func (w *Worker) slice(extra []*Bool) []*Bool {
	if len(extra) == 0 {
		return w.pc
	}
	in := map[int]bool{}
	for _, c := range extra {
		for _, v := range w.varsOf(c) {
			in[v] = true
		}
	}
	res := append([]*Bool(nil), extra...)
	used := make([]bool, len(w.pc))
	for ch := true; ch; {
		ch = false
		for i, c := range w.pc {
			if used[i] {
				continue
			}
			hit := false
			vs := w.varsOf(c)
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i], ch = true, true
				res = append(res, c)
				for _, v := range vs {
					in[v] = true
				}
			}
		}
	}
	return res
}

// varsOf lists the variables of a condition (negative ids: boolean ones).
func (w *Worker) varsOf(b *Bool) []int {
	if r, ok := w.bvars[b]; ok {
		return r
	}
	set := map[int]bool{}
	nseen := map[*Node]bool{}
	bseen := map[*Bool]bool{}
	var nodeV func(n *Node)
	var boolV func(b *Bool)
	nodeV = func(n *Node) {
		if n == nil || n.k == KConst || nseen[n] {
			return
		}
		nseen[n] = true
		if n.k == KVar {
			set[n.id] = true
			return
		}
		nodeV(n.a)
		nodeV(n.b)
		if n.cond != nil {
			boolV(n.cond)
		}
	}
	boolV = func(b *Bool) {
		if b == nil || bseen[b] {
			return
		}
		bseen[b] = true
		if b.k == BVar {
			set[-b.id] = true
			return
		}
		nodeV(b.a)
		nodeV(b.b)
		boolV(b.x)
		boolV(b.y)
	}
	boolV(b)
	r := make([]int, 0, len(set))
	for v := range set {
		r = append(r, v)
	}
	sort.Ints(r)
	w.bvars[b] = r
	return r
}

func (w *Worker) decide(c *Bool) bool {
	if c.k == BTrue {
		return true
	}
	if c.k == BFalse {
		return false
	}
	if w.warming != nil {
		return w.warmBool(c)
	}
	if v, ok := w.implied(c); ok {
		return v
	}
	if w.initing {
		unmodelled("symbolic branch in package initialisation")
	}
	i := len(w.trace)
	if i < len(w.prefix) {
		d := w.prefix[i]
		w.trace = append(w.trace, d)
		if d.v == 1 {
			w.addPC(c)
			return true
		}
		w.addPC(w.t.Not(c))
		return false
	}
	w.st.decisions++
	nc := w.t.Not(c)
	r1 := w.check(c)
	if r1 == Unsat {
		w.record(0, true)
		w.addPC(nc)
		return false
	}
	r2 := w.check(nc)
	if r2 == Unsat {
		w.record(1, true)
		w.addPC(c)
		return true
	}
	if r1 == Unknown || r2 == Unknown {
		w.st.unknownBranch++
	}
	w.pushAlt(0)
	w.record(1, false)
	w.addPC(c)
	return true
}

func (w *Worker) uniq(name string) string {
	k := w.names[name]
	w.names[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (w *Worker) choose(name string, n int64) int64 {
	name = w.uniq(name)
	if n <= 0 {
		unmodelled("choose of %d", n)
	}
	if w.warming != nil {
		return w.warming.Choices[name]
	}
	i := len(w.trace)
	var v int64
	if n == 1 {
		v = 0
	} else if i < len(w.prefix) {
		v = w.prefix[i].v
		w.trace = append(w.trace, w.prefix[i])
	} else {
		for k := n - 1; k >= 1; k-- {
			w.pushAlt(k)
		}
		w.record(0, false)
	}
	w.choices[name] = v
	return v
}

// concInt enumerates the feasible values of a symbolic integer.
func (w *Worker) concInt(n *Node) int64 {
	if n.isConst() {
		return n.rat.Num().Int64()
	}
	if w.warming != nil {
		return int64(newEval(w.t, &Model{}).f(n))
	}
	for k := 0; k < 64; k++ {
		i := len(w.trace)
		var v int64
		if i < len(w.prefix) {
			v = w.prefix[i].v
			w.trace = append(w.trace, w.prefix[i])
		} else {
			w.freshN++
			x := w.t.Var(fmt.Sprintf("@conc%d", w.freshN), true, -9e18, 9e18)
			eq := w.t.EQ(x, n)
			vd, m := w.s.Check(w.t, w.slice([]*Bool{eq}), w.cfg.branchTO, true)
			if vd == Unsat {
				panic(pathEnd{"infeasible", "concretisation"})
			}
			if vd != Sat || m.rat[x.name] == nil || !m.rat[x.name].Num().IsInt64() {
				unmodelled("cannot concretise %s", n)
			}
			v = m.rat[x.name].Num().Int64()
			w.record(v, true)
		}
		if w.decide(w.t.EQ(n, w.t.Int(v))) {
			return v
		}
	}
	panic(pathEnd{"budget", "too many concrete values for a symbolic integer"})
}

func (w *Worker) fresh(name string, lo, hi float64) *Node {
	w.freshN++
	return w.t.Var(fmt.Sprintf("@%s%d", name, w.freshN), false, lo, hi)
}

func (w *Worker) assume(c *Bool) {
	if v, ok := w.implied(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	replay := len(w.trace) < len(w.prefix)
	w.addPC(c)
	if !replay && w.check(c) == Unsat {
		panic(pathEnd{"assume", ""})
	}
}

/* ---------- obligations ---------- */

func (w *Worker) assertB(c *Bool, label string) {
	w.obs = append(w.obs, oblig{label: label, c: c})
}

func (w *Worker) assertEq(a, b *Node, label string) {
	w.obs = append(w.obs, oblig{label: label, eq: true, a: a, b: b})
}

const tolRel = 1e-9

// violated gives the condition under which an obligation fails.
func (w *Worker) violated(o *oblig) *Bool {
	t := w.t
	if !o.eq {
		if v, ok := w.implied(o.c); ok {
			return t.BoolConst(!v)
		}
		return t.Not(o.c)
	}
	a, b := o.a, o.b
	if a == b {
		return t.False
	}
	if a.special() || b.special() {
		return t.BoolConst(a.k != b.k)
	}
	p := t.polySub(t.canon(a), t.canon(b))
	if len(p.ms) == 0 {
		return t.False
	}
	if r := t.residual(p); r != nil && len(r.ms) == 0 {
		return t.False
	} else if os.Getenv("QV_RES") != "" {
		fmt.Println("RES", o.label, len(p.ms), r == nil)
		if len(p.ms) < 40 {
			fmt.Println(t.showPoly(p))
		}
		if r != nil && len(r.ms) < 40 {
			fmt.Println("->", t.showPoly(r))
		}
	}
	if a.isConst() && b.isConst() {
		x, _ := a.rat.Float64()
		y, _ := b.rat.Float64()
		return t.BoolConst(math.Abs(x-y) > tolRel*(1+math.Abs(y)))
	}
	tol := t.Rat(big.NewRat(1, 1000000000))
	d := t.Sub(a, b)
	nd := t.Sub(b, a)
	u := t.Mul(tol, t.Add(t.One, b))
	v := t.Mul(tol, t.Sub(t.One, b))
	return t.Or(t.And(t.LT(u, d), t.LT(v, d)), t.And(t.LT(u, nd), t.LT(v, nd)))
}

// flush discharges the pending obligations under the current path condition.
func (w *Worker) flush() {
	if len(w.obs) == 0 {
		return
	}
	obs := w.obs
	w.obs = nil
	w.obsSeen = append(w.obsSeen, obs...)
	if len(w.trace) < len(w.prefix) {
		return // already discharged by the path that recorded this prefix
	}
	type open struct {
		o *oblig
		c *Bool
	}
	var pend []open
	var raw, same [][2]*Node
	for i := range obs {
		o := &obs[i]
		w.st.obligations++
		w.run.label(o.label)
		c := w.violated(o)
		if c == w.t.False {
			w.st.structural++
			if o.eq && !o.a.special() && !o.b.special() && !o.a.isConst() {
				if o.a == o.b {
					same = append(same, [2]*Node{o.a, o.b})
				} else if w.t.canon(o.a) == w.t.canon(o.b) {
					raw = append(raw, [2]*Node{o.a, o.b})
				}
			}
			continue
		}
		pend = append(pend, open{o, c})
	}
	if len(raw)+len(same) > 0 && w.rnd() < w.cfg.rawFrac && atomic.LoadInt64(&w.run.rawTime) < int64(w.cfg.rawBudget) {
		t0 := time.Now()
		if len(raw) > 12 {
			raw = raw[:12]
		}
		if len(same) > 12 {
			same = same[:12]
		}
		raw = append(raw, same...)
		w.st.rawChecks++
		switch w.s.CheckRaw(w.t, w.pc, raw, 2*time.Second) {
		case Unknown:
			w.st.rawUnknown++
		case Sat:
			w.st.rawDisagree++
			w.st.note("raw-form disagreement on " + w.run.name)
			if debugCrash {
				for _, c := range w.pc {
					fmt.Println("  pc", c)
				}
				for _, r := range raw {
					fmt.Println("  raw", r[0], "  ===  ", r[1])
				}
			}
		}
		atomic.AddInt64(&w.run.rawTime, int64(time.Since(t0)))
	}
	if len(pend) > 0 {
		// equations among the path conditions (ties, exact bounds)
		if sb := w.equalities(); sb != nil {
			var rest []open
			for _, p := range pend {
				q := oblig{label: p.o.label, eq: p.o.eq}
				if q.eq {
					q.a, q.b = sb.node(p.o.a), sb.node(p.o.b)
				} else {
					q.c = sb.cond(p.o.c)
				}
				if !sb.bad && w.violated(&q) == w.t.False {
					w.st.structural++
					continue
				}
				rest = append(rest, p)
			}
			pend = rest
		}
	}
	if len(pend) == 0 {
		return
	}
	// known findings are decided apart, so that they mask nothing else
	var main, known []open
	for _, p := range pend {
		if w.run.knownLab(p.o.label) {
			known = append(known, p)
		} else {
			main = append(main, p)
		}
	}
	solve := func(l []open) {
		if len(l) == 0 {
			return
		}
		d := w.t.False
		for _, p := range l {
			d = w.t.Or(d, p.c)
		}
		v := w.ask(w.cfg.proveTO, d)
		if v == Unsat {
			w.st.solverDischarged += len(l)
			return
		}
		for _, p := range l {
			vd := v
			if len(l) > 1 {
				vd = w.ask(w.cfg.proveTO, p.c)
			}
			if vd == Unsat {
				w.st.solverDischarged++
				continue
			}
			w.counterexample(p.o, p.c, vd)
			if w.run.stopped() {
				return
			}
		}
	}
	solve(main)
	solve(known)
}

func (w *Worker) rnd() float64 {
	h := fnv.New64a()
	fmt.Fprint(h, w.run.name, w.cfg.seed, len(w.obsSeen))
	for _, d := range w.trace {
		fmt.Fprint(h, d.v, ",")
	}
	return float64(h.Sum64()>>11) / (1 << 53)
}

// niceBounds: optional constraints keeping inputs small and well separated.
func (w *Worker) inputs() []*Atom {
	var r []*Atom
	for _, n := range w.ins {
		if p := w.t.canon(n); len(p.ms) == 1 && len(p.ms[0].m.f) == 1 {
			r = append(r, p.ms[0].m.f[0].a)
		}
	}
	return r
}

func (w *Worker) input(n *Node) *Node {
	w.ins = append(w.ins, n)
	return n
}

func (w *Worker) nice(level int) []*Bool {
	t := w.t
	var r []*Bool
	for _, a := range w.inputs() {
		n := a.node
		if n.isInt {
			continue
		}
		b := 4.0
		if level == 1 {
			b = 700
		}
		if n.lo > b || n.hi < -b {
			continue
		}
		if n.lo < -b {
			r = append(r, t.LE(t.Float(-b), n))
		}
		if n.hi > b {
			r = append(r, t.LE(n, t.Float(b)))
		}
	}
	return r
}

func (w *Worker) mkCase(m *Model) *Case {
	c := &Case{Warm: w.warmSet, Prop: w.run.prop, Harness: w.run.name, Nums: map[string]float64{}, Ints: map[string]int64{}, Bools: map[string]bool{}, Choices: map[string]int64{}}
	for k, v := range w.choices {
		c.Choices[k] = v
	}
	for _, a := range w.inputs() {
		n := a.node
		if n.isInt {
			if r, ok := m.rat[a.name]; ok && r.Num().IsInt64() {
				c.Ints[a.name] = r.Num().Int64()
			} else {
				c.Ints[a.name] = int64(math.Max(n.lo, math.Min(0, n.hi)))
			}
			continue
		}
		if v, ok := m.num[a.name]; ok {
			c.Nums[a.name] = v
		}
	}
	for k, v := range m.bool {
		c.Bools[k] = v
	}
	if w.ordered {
		c.Repeat = 16
	}
	if len(w.derivs) > 0 {
		c.Derivs = map[string]float64{}
		mm := &Model{num: map[string]float64{}, rat: m.rat, bool: m.bool}
		for k, v := range m.num {
			mm.num[k] = v
		}
		for k, v := range c.Nums {
			mm.num[k] = v
		}
		ev := newEval(w.t, mm)
		for _, p := range w.pc {
			if !ev.b(p) {
				// the model takes another path numerically, where the
				// derivatives of this one mean nothing
				c.Stale = true
				break
			}
		}
		for k, n := range w.derivs {
			if v := ev.f(n); !math.IsNaN(v) && !math.IsInf(v, 0) {
				c.Derivs[k] = v
			}
		}
	}
	return c
}

// counterexample looks for an input on this path that fails natively.
func (w *Worker) counterexample(o *oblig, viol *Bool, vd Verdict) {
	known := w.run.knownLab(o.label)
	key := o.label
	w.run.mu.Lock()
	att := w.run.attempts[key]
	w.run.attempts[key]++
	_, haveKnown := w.run.known[key]
	w.run.mu.Unlock()
	if known && haveKnown {
		return
	}
	if att > 25 {
		w.st.inconclusive++
		w.st.note("candidate not retried: " + o.label)
		return
	}
	if att == 0 && os.Getenv("QV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "candidate %s: %s %s\n  a=%v\n  b=%v\n  viol=%v\n", w.run.name, o.label, vd, o.a, o.b, viol)
		for _, c := range w.pc {
			fmt.Fprintf(os.Stderr, "    pc %v\n", c)
		}
	}
	tried := 0
	try := func(c *Case) bool {
		tried++
		if c.Stale {
			return false
		}
		res := w.run.nrep.Run(c, 20*time.Second)
		for i := 0; i < 8 && w.run.nrep.race && res != nil && len(res.Fails) == 0; i++ {
			res = w.run.nrep.Run(c, 20*time.Second) // another schedule
		}
		if res == nil {
			return false
		}
		for _, f := range res.Fails {
			if f.Label == "assume" {
				return false
			}
		}
		for _, f := range res.Fails {
			kn := w.run.knownLab(f.Label)
			if kn && !known {
				continue
			}
			if kn != known {
				continue
			}
			w.run.violation(&Violation{Harness: w.run.name, Label: f.Label, Detail: f.Detail, Case: c, Known: kn})
			return true
		}
		return false
	}
	var tight []*Case // also not reproduced within the usual tolerance
	conds := append(append([]*Bool(nil), w.pc...), viol)
	if vd == Sat {
		for lvl := 0; lvl < 3; lvl++ {
			cs := conds
			if lvl < 2 {
				cs = append(append([]*Bool(nil), conds...), w.nice(lvl)...)
			}
			v, m := w.s.Check(w.t, cs, w.cfg.proveTO, true)
			if v == Sat && m != nil {
				c := w.mkCase(m)
				if try(c) {
					return
				}
				if lvl < 2 {
					tight = append(tight, c)
				}
			}
		}
	}
	// diversified valuations of the same path: inputs satisfying the path
	// condition, on which the term evaluates to a violation
	rng := rand.New(rand.NewSource(w.cfg.seed + int64(att)))
	ins := w.inputs()
	var base *Model
	if v, m := w.s.Check(w.t, append(append([]*Bool(nil), w.pc...), w.nice(0)...), w.cfg.branchTO, true); v == Sat {
		base = m
	} else if v, m := w.s.Check(w.t, w.pc, w.cfg.branchTO, true); v == Sat {
		base = m
	}
	hits := 0
	for k := 0; k < 4000 && hits < 12; k++ {
		m := &Model{num: map[string]float64{}, rat: map[string]*big.Rat{}, bool: map[string]bool{}}
		if base != nil {
			for n, v := range base.bool {
				m.bool[n] = v
			}
		}
		for _, a := range ins {
			n := a.node
			if n.isInt {
				if base != nil && base.rat[a.name] != nil {
					m.rat[a.name] = base.rat[a.name]
				} else {
					m.rat[a.name] = new(big.Rat).SetInt64(int64(math.Max(n.lo, math.Min(1, n.hi))))
				}
				f, _ := m.rat[a.name].Float64()
				m.num[a.name] = f
				continue
			}
			lo, hi := math.Max(n.lo, -4), math.Min(n.hi, 4)
			if lo > hi {
				lo, hi = n.lo, n.hi
			}
			v := lo + rng.Float64()*(hi-lo)
			if base != nil {
				if bv, ok := base.num[a.name]; ok && rng.Intn(3) > 0 {
					v = bv
					if k > 0 && rng.Intn(2) == 0 {
						v = bv + (rng.Float64()-0.5)*math.Max(1e-3, math.Abs(bv))*math.Pow(10, -float64(rng.Intn(4)))
					}
				}
			}
			v = math.Max(n.lo, math.Min(n.hi, v))
			m.num[a.name] = v
		}
		ev := newEval(w.t, m)
		ok := true
		for _, c := range w.pc {
			if !ev.b(c) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if k > 0 && o.eq && !o.a.special() && !o.b.special() {
			x, y := ev.f(o.a), ev.f(o.b)
			if !(math.Abs(x-y) > tolRel*(1+math.Abs(y))) {
				continue
			}
		}
		hits++
		c := w.mkCase(m)
		if try(c) {
			return
		}
		if vd == Sat && k > 0 {
			tight = append(tight, c)
		}
	}
	// a loss of precision beyond that of float64
	for _, c := range tight {
		c.Tight = true
		if try(c) {
			return
		}
	}
	w.st.inconclusive++
	w.st.note(fmt.Sprintf("candidate (%s) not reproduced natively: %s", vd, o.label))
}

/* ---------- numeric evaluation of terms ---------- */

type evalr struct {
	t *TermTab
	m *Model
	c map[*Node]float64
}

func newEval(t *TermTab, m *Model) *evalr { return &evalr{t, m, map[*Node]float64{}} }

func (e *evalr) f(n *Node) float64 {
	switch n.k {
	case KConst:
		f, _ := n.rat.Float64()
		return f
	case KNaN:
		return math.NaN()
	case KPInf:
		return math.Inf(1)
	case KNInf:
		return math.Inf(-1)
	}
	if v, ok := e.c[n]; ok {
		return v
	}
	var v float64
	switch n.k {
	case KVar:
		x, ok := e.m.num[n.name]
		if !ok {
			x = math.Max(n.lo, math.Min(n.hi, defaultVal(n.name)))
		}
		v = x
	case KAdd:
		v = e.f(n.a) + e.f(n.b)
	case KSub:
		v = e.f(n.a) - e.f(n.b)
	case KMul:
		v = e.f(n.a) * e.f(n.b)
	case KDiv:
		v = e.f(n.a) / e.f(n.b)
	case KIte:
		if e.b(n.cond) {
			v = e.f(n.a)
		} else {
			v = e.f(n.b)
		}
	case KExp:
		v = math.Exp(e.f(n.a))
	case KLog:
		v = math.Log(e.f(n.a))
	case KSin:
		v = math.Sin(e.f(n.a))
	case KCos:
		v = math.Cos(e.f(n.a))
	case KSqrt:
		v = math.Sqrt(e.f(n.a))
	case KPow:
		v = math.Pow(e.f(n.a), e.f(n.b))
	case KTrunc:
		v = math.Trunc(e.f(n.a))
	case KFloor:
		v = math.Floor(e.f(n.a))
	case KIDiv:
		v = math.Floor(e.f(n.a) / e.f(n.b))
	case KAtan:
		v = math.NaN()
	}
	e.c[n] = v
	return v
}

func (e *evalr) b(b *Bool) bool {
	switch b.k {
	case BTrue:
		return true
	case BFalse:
		return false
	case BVar:
		return e.m.bool[b.name]
	case BLT:
		return e.f(b.a) < e.f(b.b)
	case BLE:
		return e.f(b.a) <= e.f(b.b)
	case BEQ:
		return e.f(b.a) == e.f(b.b)
	case BAnd:
		return e.b(b.x) && e.b(b.y)
	case BOr:
		return e.b(b.x) || e.b(b.y)
	case BNot:
		return !e.b(b.x)
	}
	return false
}

func defaultVal(name string) float64 {
	h := fnv.New32a()
	h.Write([]byte(name))
	return 0.25 + float64(h.Sum32()%1000)/500
}

/* ---------- running ---------- */

func (r *HRun) push(p []dec) {
	r.mu.Lock()
	r.queue = append(r.queue, p)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *HRun) stopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stop
}

func (r *HRun) label(l string) {
	r.mu.Lock()
	r.labels[l]++
	r.mu.Unlock()
}

func (r *HRun) violation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if v.Known {
		if r.known[v.Label] == nil {
			r.known[v.Label] = v
		}
		return
	}
	r.viol = append(r.viol, v)
	r.stop = true
	r.cond.Broadcast()
}

func (r *HRun) pop() ([]dec, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil, false
		}
		if r.globalStop() {
			r.truncated = "stopped by the time budget of the check"
			r.stop = true
			r.cond.Broadcast()
			return nil, false
		}
		if time.Now().After(r.deadline) {
			r.truncated = fmt.Sprintf("time budget, %d prefixes left", len(r.queue))
			if len(r.queue) == 0 {
				r.truncated = ""
			} else {
				r.stop = true
				r.cond.Broadcast()
				return nil, false
			}
		}
		if len(r.queue) > 0 {
			if r.warm != nil { // a sample, if time runs out
				i, j := r.rng.Intn(len(r.queue)), len(r.queue)-1
				r.queue[i], r.queue[j] = r.queue[j], r.queue[i]
			}
			p := r.queue[len(r.queue)-1]
			r.queue = r.queue[:len(r.queue)-1]
			r.active++
			r.started++
			return p, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil, false
		}
		r.cond.Wait()
	}
}

func (r *HRun) done() {
	r.mu.Lock()
	r.active--
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (w *Worker) loop(r *HRun) {
	w.run = r
	for {
		p, ok := r.pop()
		if !ok {
			break
		}
		guardWait()
		w.onePath(p)
		if guard.abort.Load() == 1 { // give the memory back
			w.t, w.consts, w.vcache, w.bvars = nil, nil, nil, nil
			w.pc, w.pcset, w.obs, w.obsSeen, w.ins, w.derivs, w.globals, w.draws = nil, nil, nil, nil, nil, nil, nil, nil
		}
		r.done()
	}
	r.mu.Lock()
	r.st.add(&w.st)
	for k, v := range w.fnHits {
		r.fnHits[k] += v
	}
	r.mu.Unlock()
	w.st = Stats{}
	w.fnHits = map[int]int{}
}

func (w *Worker) onePath(prefix []dec) {
	w.resetPath(prefix)
	end := pathEnd{"exit", ""}
	var tp *targetPanic
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch v := x.(type) {
				case pathEnd:
					end = v
				case targetPanic:
					tp = &v
				default:
					if debugCrash {
						panic(x)
					}
					end = pathEnd{"unmodelled", fmt.Sprint("executor: ", x)}
				}
			}
		}()
		w.initing = true
		w.initPackages()
		w.initing = false
		w.steps = 0
		w.initClock = w.clock
		w.warmUp()
		w.callFn(nil, w.run.fn, nil, nil)
	}()
	w.st.steps += int64(w.steps)
	w.st.eagerGo += w.eagerGo
	func() {
		defer func() {
			if x := recover(); x != nil {
				if pe, ok := x.(pathEnd); ok {
					w.st.note("obligation phase: " + pe.msg)
					w.st.inconclusive++
					return
				}
				if debugCrash {
					panic(x)
				}
				w.st.note(fmt.Sprint("obligation phase: ", x))
				w.st.inconclusive++
			}
		}()
		if tp != nil {
			w.st.paths++
			msg := tp.rt
			if msg == "" {
				msg = fmt.Sprint(fmtVal(tp.v))
			}
			w.assertB(w.t.False, "panic")
			_ = msg
			w.flush()
			return
		}
		switch end.kind {
		case "exit":
			w.st.paths++
			w.flush()
			w.run.mu.Lock()
			for k := range w.covers {
				w.run.covers[k]++
			}
			if len(w.run.samples) < 3 {
				w.run.samples = append(w.run.samples, w.sample())
			}
			w.run.mu.Unlock()
			w.keep()
			w.maybeValidate()
		case "assume":
			w.st.assumed++
			w.flushIgnore()
		case "infeasible":
			w.st.infeasible++
		case "hang":
			w.st.hung++
			w.assertB(w.t.False, "hang")
			w.st.note("hang candidate: " + end.msg)
			w.flush()
		case "unmodelled", "budget":
			w.st.unmodelled++
			w.st.note(end.kind + ": " + end.msg)
			w.flush()
			w.replayUnmodelled()
		}
	}()
}

func (w *Worker) flushIgnore() { w.obs = nil }

// replayUnmodelled: the solver's model of a path that left the encoded
// fragment is still run against the real code.
func (w *Worker) replayUnmodelled() {
	w.run.mu.Lock()
	n := w.run.attempts["@unmodelled"]
	w.run.attempts["@unmodelled"]++
	w.run.mu.Unlock()
	if n > 40 {
		return
	}
	for _, cs := range [][]*Bool{w.nice(0), nil} {
		v, m := w.s.Check(w.t, append(append([]*Bool(nil), w.pc...), cs...), w.cfg.branchTO, true)
		if v != Sat || m == nil {
			continue
		}
		c := w.mkCase(m)
		if c.Stale {
			continue
		}
		res := w.run.nrep.Run(c, 20*time.Second)
		if res == nil {
			continue
		}
		for _, f := range res.Fails {
			if f.Label == "assume" {
				return
			}
		}
		for _, f := range res.Fails {
			if !w.run.knownLab(f.Label) {
				w.run.violation(&Violation{Harness: w.run.name, Label: f.Label, Detail: f.Detail + " (found on a model of a path outside the encoded fragment)", Case: c})
				return
			}
		}
	}
}

func (w *Worker) sample() string {
	var b strings.Builder
	fmt.Fprintf(&b, "path: choices=%v decisions=%d steps=%d obligations=%d", w.choices, len(w.trace), w.steps, len(w.obsSeen))
	for i, c := range w.pc {
		if i >= 4 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " [%s]", c.str(4))
	}
	for i := range w.obsSeen {
		o := &w.obsSeen[i]
		if o.eq && o.a.k != KConst && i < 40 {
			fmt.Fprintf(&b, "; e.g. %s: %s = %s", o.label, o.a.str(4), o.b.str(4))
			break
		}
	}
	s := b.String()
	if len(s) > 700 {
		s = s[:700]
	}
	return s
}

// maybeValidate replays a model of a passing path against the real code and
// compares every observed value with the encoding's value.
func (w *Worker) maybeValidate() {
	if w.freshN > 0 {
		w.st.validSkipped++
		return
	}
	if w.drawN > 0 { // the real code draws other values: its assertions only
		w.validateDraws()
		return
	}
	w.run.mu.Lock()
	n := w.run.attempts["@validate"]
	take := n < w.cfg.validate && (n < w.cfg.validate/3+1 || w.rnd() < 0.2)
	if strings.HasSuffix(w.run.name, "_exact") { // concrete values: all of them
		take = n < 20000
	} else if len(w.pc) == 0 { // no model to search for
		take = n < 10*w.cfg.validate
	}
	if w.run.warm != nil {
		take = n < w.cfg.validate
	}
	if take {
		w.run.attempts["@validate"]++
	}
	w.run.mu.Unlock()
	if !take {
		return
	}
	nice := true
	v, m := Sat, &Model{num: map[string]float64{}, rat: map[string]*big.Rat{}, bool: map[string]bool{}}
	if len(w.pc) > 0 {
		v, m = w.s.Check(w.t, append(append([]*Bool(nil), w.pc...), w.nice(0)...), w.cfg.branchTO, true)
	}
	if v != Sat || m == nil {
		nice = false
		v, m = w.s.Check(w.t, w.pc, w.cfg.branchTO, true)
	}
	if v != Sat || m == nil {
		w.st.validSkipped++
		return
	}
	// inputs the path does not depend on get pseudo-random values
	inPC := map[int]bool{}
	for _, c := range w.pc {
		for _, v := range w.varsOf(c) {
			inPC[v] = true
		}
	}
	for _, a := range w.inputs() {
		if _, ok := m.num[a.name]; (!ok || !inPC[a.node.id]) && !a.node.isInt {
			v := defaultVal(a.name)
			if lo, hi := a.node.lo, a.node.hi; hi-lo < 1e6 && (v < lo || v > hi) {
				v = lo + (hi-lo)*(v-0.25)/2
			} else {
				v = math.Max(lo, math.Min(hi, v))
			}
			m.num[a.name] = v
		}
	}
	c := w.mkCase(m)
	for k, v := range c.Nums {
		m.num[k] = v
	}
	ev := newEval(w.t, m)
	for _, p := range w.pc {
		if !ev.b(p) { // rounding of the model moved it off the path
			w.st.validSkipped++
			return
		}
	}
	run := w.run.nrep.RunFast
	if c.Warm != nil {
		run = w.run.nrep.Run
	}
	res := run(c, 20*time.Second)
	if res == nil {
		w.st.validSkipped++
		return
	}
	for _, f := range res.Fails {
		if w.run.knownLab(f.Label) {
			continue
		}
		if f.Label == "assume" {
			w.st.validSkipped++
			return
		}
		if !nice && f.Detail != "assertion false" && f.Label != "panic" && f.Label != "hang" {
			// values this large may differ by rounding alone
			w.st.validSkipped++
			return
		}
		// the real code fails where the encoding passes
		w.run.violation(&Violation{Harness: w.run.name, Label: f.Label, Detail: f.Detail + " (found while replaying a path model)", Case: c})
		return
	}
	if len(res.Obs) != len(w.obsSeen) {
		w.st.validMismatch++
		w.st.note(fmt.Sprintf("validation: %d native observations, %d encoded", len(res.Obs), len(w.obsSeen)))
		return
	}
	for i, o := range w.obsSeen {
		ro := res.Obs[i]
		if ro.Label != o.label {
			w.st.validMismatch++
			w.st.note("validation: label order differs at " + o.label)
			return
		}
		if o.eq {
			x, y := ev.f(o.a), ro.A
			if math.IsNaN(x) && !o.a.special() {
				continue // the evaluation of the term overflowed
			}
			if !close_(x, y) {
				w.st.validMismatch++
				w.st.note(fmt.Sprintf("validation: %s encoded %v native %v", o.label, x, y))
				return
			}
		}
	}
	w.st.validated++
}

func (w *Worker) validateDraws() {
	w.run.mu.Lock()
	n := w.run.attempts["@validate"]
	w.run.attempts["@validate"]++
	w.run.mu.Unlock()
	if n >= w.cfg.validate/2 {
		return
	}
	v, m := w.s.Check(w.t, append(append([]*Bool(nil), w.pc...), w.nice(0)...), w.cfg.branchTO, true)
	if v != Sat || m == nil {
		w.st.validSkipped++
		return
	}
	c := w.mkCase(m)
	run := w.run.nrep.RunFast
	if c.Warm != nil {
		run = w.run.nrep.Run
	}
	res := run(c, 60*time.Second)
	if res == nil {
		w.st.validSkipped++
		return
	}
	for _, f := range res.Fails {
		if w.run.knownLab(f.Label) {
			continue
		}
		if f.Label == "assume" {
			w.st.validSkipped++
			return
		}
		w.run.violation(&Violation{Harness: w.run.name, Label: f.Label, Detail: f.Detail + " (found while replaying a path model)", Case: c})
		return
	}
	w.st.validated++
}

func close_(x, y float64) bool {
	if math.IsNaN(x) || math.IsNaN(y) {
		return math.IsNaN(x) && math.IsNaN(y)
	}
	if math.IsInf(x, 0) || math.IsInf(y, 0) {
		return x == y
	}
	return math.Abs(x-y) <= 1e-5*(1+math.Abs(y))
}

func (w *Worker) initPackages() {
	for _, p := range w.P.initOrder() {
		if f := p.Func("init"); f != nil {
			w.callFn(nil, f, nil, nil)
		}
	}
}

/* ---------- locks, logs, randomness ---------- */

func (w *Worker) smap(c *Cell) *MapObj {
	m := w.smaps[c]
	if m == nil {
		m = &MapObj{m: map[Value]int{}}
		w.smaps[c] = m
	}
	return m
}

type source struct {
	key string
	n   int
	c   *Cell // stands for its state in access logs
}

func (w *Worker) draw(kind string) Value {
	if w.warming != nil {
		return w.warmDraw(kind)
	}
	w.drawN++
	lo, hi := -math.MaxFloat64, math.MaxFloat64
	switch kind {
	case "u":
		lo, hi = 0, 1
	case "e":
		lo = 0
	}
	n := w.t.Var(fmt.Sprintf("@draw_%s_%d", kind, w.drawN), false, lo, hi)
	if kind == "u" {
		w.addPC(w.t.LT(n, w.t.One))
	}
	w.draws = append(w.draws, n)
	return n
}

func (w *Worker) newSource(pkg string, seed Value) Value {
	key := pkg
	switch s := seed.(type) {
	case int64:
		key += fmt.Sprint(s)
	case *Node:
		key += fmt.Sprint("n", s.id)
	}
	c := w.newAgg(1)
	c.cells[0].v = int64(0)
	w.srcs[&c.cells[0]] = &source{key: key, c: &c.cells[0]}
	return IfaceV{w.P.errT, &c.cells[0]}
}

func (w *Worker) newSourcePtr(pkg, seed string) Value {
	c := w.newAgg(1)
	c.cells[0].v = int64(0)
	w.srcs[&c.cells[0]] = &source{key: pkg + seed, c: &c.cells[0]}
	return &c.cells[0]
}

func (w *Worker) newRand(src Value) Value {
	iv, ok := src.(IfaceV)
	if !ok {
		unmodelled("rand.New of %T", src)
	}
	if iv.t == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := w.srcs[iv.v.(*Cell)]
	if s == nil {
		unmodelled("rand.New of an unknown source")
	}
	c := w.newAgg(1)
	c.cells[0].v = int64(0)
	w.srcs[&c.cells[0]] = s
	return &c.cells[0]
}

// seededDraw: the k-th draw of a source is a function of its seed.
func (w *Worker) seededDraw(rp Value, kind string) Value {
	s := w.srcs[rp.(*Cell)]
	if s == nil {
		unmodelled("draw from an unknown source")
	}
	s.n++
	if w.log != nil && s.c != nil {
		w.log.write(s.c, nil)
	}
	if w.warming != nil {
		return w.warmDraw(kind)
	}
	w.drawN++
	lo, hi := -math.MaxFloat64, math.MaxFloat64
	if kind == "u" {
		lo, hi = 0, 1
	}
	n := w.t.Var(fmt.Sprintf("@draw_%s_seed(%s)_%d", kind, s.key, s.n), false, lo, hi)
	if kind == "u" {
		w.addPC(w.t.LT(n, w.t.One))
	}
	w.draws = append(w.draws, n)
	return n
}

// drawsOf lists the draws a value depends on.
func (w *Worker) drawsOf(x *Node) []*Node {
	var r []*Node
	seen, bseen := map[*Node]bool{}, map[*Bool]bool{}
	var bw func(b *Bool)
	var nw func(n *Node)
	nw = func(n *Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if n.k == KVar && strings.HasPrefix(n.name, "@draw_") {
			r = append(r, n)
		}
		nw(n.a)
		nw(n.b)
		bw(n.cond)
	}
	bw = func(b *Bool) {
		if b == nil || bseen[b] {
			return
		}
		bseen[b] = true
		nw(b.a)
		nw(b.b)
		bw(b.x)
		bw(b.y)
	}
	nw(x)
	return r
}

// unrestricted decides that the path condition leaves a draw the whole of its
// support: every conjunct about it follows from the others and the support.
func (w *Worker) unrestricted(d *Node) bool {
	var about, rest []*Bool
	for _, c := range w.pc {
		has := false
		for _, v := range w.varsOf(c) {
			has = has || v == d.id
		}
		if has {
			about = append(about, c)
		} else {
			rest = append(rest, c)
		}
	}
	sup := w.t.LT(d, w.t.One)
	if strings.HasPrefix(d.name, "@draw_u") {
		rest = append(rest, sup)
	}
	for _, c := range about {
		if c == sup {
			continue
		}
		v, _ := w.s.Check(w.t, append(append([]*Bool(nil), rest...), w.t.Not(c)), w.cfg.proveTO, false)
		if v != Unsat {
			return false
		}
	}
	return true
}
