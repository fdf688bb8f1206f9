package main

// Sequences of calls: a library that keeps package-level state between calls
// (caches, pools, tables) may answer differently after other calls. When a
// path is seen to write such state, the harness is explored once more after
// warm-ups: earlier scenarios of the same harness, run on the concrete inputs
// of their models, in the same heap.

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sync/atomic"
	"time"
)

const (
	warmRounds = 5
	warmLen    = 12
	warmPool   = 800
)

// wrote notes a write to package-level state of the library: storage that
// existed when the packages had been initialised.
func (w *Worker) wrote(b int64, fr *frame) {
	if !w.initing && b <= w.initClock && !w.shared {
		if fr != nil && fr.fi.fn.Pkg != nil && fr.fi.fn.Pkg.Pkg.Path() == w.P.mod+"/zz_verif/h" {
			return
		}
		w.shared = true
	}
}

// keep stores a scenario for later warm-ups.
func (w *Worker) keep() {
	r := w.run
	if !w.shared || r.warm != nil {
		return
	}
	r.mu.Lock()
	r.sharedState = true
	full := len(r.pool) >= warmPool
	r.mu.Unlock()
	if full {
		return
	}
	m := &Model{num: map[string]float64{}, rat: map[string]*big.Rat{}, bool: map[string]bool{}}
	if len(w.pc) > 0 {
		v, mm := w.s.Check(w.t, append(append([]*Bool(nil), w.pc...), w.nice(0)...), w.cfg.branchTO, true)
		if v != Sat || mm == nil {
			return
		}
		m = mm
	}
	c := w.mkCase(m)
	if c.Stale {
		return
	}
	r.mu.Lock()
	r.pool = append(r.pool, warmCase{c, w.steps})
	r.mu.Unlock()
}

type warmCase struct {
	c     *Case
	steps int
}

// warmSets picks the warm-ups of every round.
func (r *HRun) warmSets(seed int64) [][]*Case {
	rng := rand.New(rand.NewSource(seed + 7))
	p := r.pool
	// cheap scenarios: twelve of them run before every path
	lim := 400000
	var cs []*Case
	for _, x := range p {
		if x.steps <= lim {
			cs = append(cs, x.c)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	var sets [][]*Case
	perm := rng.Perm(len(cs))
	for i := 0; i < warmRounds; i++ {
		var s []*Case
		for k := 0; k < warmLen && k < len(cs); k++ {
			s = append(s, cs[perm[(i*warmLen+k)%len(perm)]])
		}
		sets = append(sets, s)
		if len(cs) <= warmLen && i+1 >= 2 {
			break
		}
		if (i+1)*warmLen > len(perm) {
			perm = rng.Perm(len(cs))
		}
	}
	return sets
}

// warmUp runs the warm-ups of one round in front of the path.
func (w *Worker) warmUp() {
	if w.run.warm == nil {
		return
	}
	w.warmSet = w.run.warm[w.choose("@warm", int64(len(w.run.warm)))]
	delete(w.choices, "@warm#0")
	for _, c := range w.warmSet {
		w.warming = c
		w.warmOne()
		w.names = map[string]int{}
		w.choices = map[string]int64{}
		w.derivs = map[string]*Node{}
		w.obs = nil
		w.covers = map[string]bool{}
		w.steps, w.allocs, w.races = 0, 0, 0
		w.log = nil
		w.logs = map[int64]*accessLog{}
		w.held, w.heldX = map[*Cell]int{}, map[*Cell]bool{}
	}
	w.warming = nil
	w.names = map[string]int{}
	w.choices = map[string]int64{}
	w.freshN, w.drawN = 0, 0
	w.draws = nil
	w.ins = nil
}

func (w *Worker) warmOne() {
	defer func() {
		if x := recover(); x != nil {
			switch v := x.(type) {
			case pathEnd:
				if v.kind == "budget" {
					panic(x)
				}
			case targetPanic:
			default:
				if debugCrash {
					panic(x)
				}
			}
		}
	}()
	w.names = map[string]int{}
	w.callFn(nil, w.run.fn, nil, nil)
}

// warmBool decides a condition over the constants of a warm-up.
func (w *Worker) warmBool(c *Bool) bool {
	return newEval(w.t, &Model{num: map[string]float64{}, rat: map[string]*big.Rat{}, bool: map[string]bool{}}).b(c)
}

func (w *Worker) warmInt(nm string, lo, hi int64) int64 {
	if v, ok := w.warming.Ints[nm]; ok {
		return v
	}
	if lo > 0 {
		return lo
	}
	if hi < 0 {
		return hi
	}
	return 0
}

func (w *Worker) warmFloat(nm string, lo, hi float64) *Node {
	v, ok := w.warming.Nums[nm]
	if !ok {
		v = defaultVal(nm)
	}
	return w.t.Float(math.Max(lo, math.Min(hi, v)))
}

func (w *Worker) warmDraw(kind string) Value {
	w.warmN++
	h := uint64(w.warmN)*0x9E3779B97F4A7C15 + 0x1234567
	f := float64(h>>11) / (1 << 53)
	if kind == "n" {
		f = 2*f - 1
	}
	return w.t.Float(f)
}

// second explores the harness again behind warm-ups.
func second(first *HRun, cfg *Config, workers []*Worker, share time.Duration) *HRun {
	sets := first.warmSets(cfg.seed)
	if sets == nil {
		return nil
	}
	hr := &HRun{prop: first.prop, name: first.name, fn: first.fn, covers: map[string]int{}, labels: map[string]int{}, known: map[string]*Violation{}, attempts: map[string]int{}, fnHits: map[int]int{}, nrep: first.nrep, t0: time.Now()}
	hr.init()
	hr.warm = sets
	hr.knownLab = first.knownLab
	hr.globalStop = first.globalStop
	hr.deadline = time.Now().Add(share)
	atomic.StoreInt64(&hr.rawTime, int64(time.Hour)) // no cross-checks again
	hr.label(fmt.Sprintf("@after %d warm-up sequences", len(sets)))
	runHarness(hr, workers)
	return hr
}
