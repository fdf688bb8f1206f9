package main

// SMT-LIB emission and solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

func (v Verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

type Solver struct {
	path string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  chan string
	// statistics
	nq, nsat, nunsat, nunk, nerr int
	dur                          time.Duration
	lastErr                      string
	mode, dirty                  int // mode 1: last query ran from a reset solver
	open                         bool
}

func NewSolver(path string, args ...string) *Solver { return &Solver{path: path, args: args} }

func (s *Solver) start() error {
	if s.cmd != nil {
		return nil
	}
	c := exec.Command(s.path, s.args...)
	in, err := c.StdinPipe()
	if err != nil {
		return err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return err
	}
	c.Stderr = nil
	if err := c.Start(); err != nil {
		return err
	}
	s.cmd, s.in = c, in
	ch := make(chan string, 1024)
	s.out = ch
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := r.ReadString('\n')
			if l != "" {
				ch <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}()
	return nil
}

func (s *Solver) kill() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		ch := s.out
		go func() {
			for range ch {
			}
		}()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// run sends a self-contained script and collects output up to the marker.
func (s *Solver) run(script string, limit time.Duration) ([]string, bool) {
	if err := s.start(); err != nil {
		s.lastErr = err.Error()
		return nil, false
	}
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	if _, err := io.WriteString(s.in, script+"(echo \"@@done\")\n"); err != nil {
		s.kill()
		return nil, false
	}
	var lines []string
	tm := time.NewTimer(limit)
	defer tm.Stop()
	for {
		select {
		case l, ok := <-s.out:
			if !ok {
				s.kill()
				return lines, false
			}
			if strings.Contains(l, "@@done") {
				return lines, true
			}
			lines = append(lines, l)
		case <-tm.C:
			s.kill()
			return lines, false
		}
	}
}

/* ---------- emission ---------- */

type emitter struct {
	t     *TermTab
	decl  strings.Builder
	ax    strings.Builder
	seen  map[*Atom]bool
	inv   map[*Atom]bool
	bseen map[*Bool]string
	exps  []*Atom
	logs  []*Atom
	vars  []*Atom
	bvars []*Bool
	opq   int
	raw   map[*Node]string
}

func newEmitter(t *TermTab) *emitter {
	return &emitter{t: t, seen: map[*Atom]bool{}, inv: map[*Atom]bool{}, bseen: map[*Bool]string{}, raw: map[*Node]string{}}
}

func ratSMT(r *big.Rat, isInt bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if isInt {
		s = a.Num().String()
	} else if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func fltSMT(f float64, isInt bool) string {
	r := new(big.Rat)
	r.SetFloat64(f)
	if isInt && !r.IsInt() {
		q := new(big.Int).Div(r.Num(), r.Denom())
		r.SetInt(q)
	}
	return ratSMT(r, isInt)
}

func (a *Atom) smtName() string { return "a" + strconv.Itoa(a.id) }

// realName: the atom as a Real term
func (e *emitter) atomReal(a *Atom) string {
	e.need(a)
	if a.isInt && a.kind != AInd && a.kind != AOpaque && a.kind != AIte {
		return "(to_real " + a.smtName() + ")"
	}
	return a.smtName()
}

func (e *emitter) need(a *Atom) {
	if e.seen[a] {
		return
	}
	e.seen[a] = true
	n := a.smtName()
	switch a.kind {
	case AVar:
		e.vars = append(e.vars, a)
		sort := "Real"
		if a.isInt {
			sort = "Int"
		}
		fmt.Fprintf(&e.decl, "(declare-const %s %s)\n", n, sort)
		if !math.IsInf(a.node.lo, -1) {
			fmt.Fprintf(&e.ax, "(assert (>= %s %s))\n", n, fltSMT(a.node.lo, a.isInt))
		}
		if !math.IsInf(a.node.hi, 1) {
			fmt.Fprintf(&e.ax, "(assert (<= %s %s))\n", n, fltSMT(a.node.hi, a.isInt))
		}
	case AExp:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		p := e.poly(a.p)
		fmt.Fprintf(&e.ax, "(assert (> %s 0.0))\n(assert (>= %s (+ 1.0 %s)))\n(assert (=> (< %s 0.0) (< %s 1.0)))\n", n, n, p, p, n)
		// far ends
		fmt.Fprintf(&e.ax, "(assert (=> (<= %s (- 700.0)) (<= %s %s)))\n(assert (=> (>= %s 700.0) (>= %s %s)))\n", p, n, fltSMT(1e-304, false), p, n, fltSMT(1e304, false))
		fmt.Fprintf(&e.ax, "(assert (=> (> %s 0.0) (> %s 1.0)))\n", p, n)
		e.exps = append(e.exps, a)
	case ALog:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		p := e.poly(a.p)
		fmt.Fprintf(&e.ax, "(assert (=> (> %s 0.0) (<= %s (- %s 1.0))))\n(assert (=> (> %s 1.0) (> %s 0.0)))\n(assert (=> (and (> %s 0.0) (< %s 1.0)) (< %s 0.0)))\n", p, n, p, p, n, p, p, n)
		e.logs = append(e.logs, a)
	case ASin, ACos:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		fmt.Fprintf(&e.ax, "(assert (and (<= (- 1.0) %s) (<= %s 1.0)))\n", n, n)
		if a.kind == ACos {
			fmt.Fprintf(&e.ax, "(assert (distinct %s 0.0))\n", n)
		}
		ok := AKind(ASin)
		nm := "sin"
		if a.kind == ASin {
			ok, nm = ACos, "cos"
		}
		if o, has := e.t.atoms[nm+strconv.Itoa(a.p.id)]; has && a.kind == ASin {
			_ = ok
			e.need(o)
			fmt.Fprintf(&e.ax, "(assert (= 1.0 (+ (* %s %s) (* %s %s))))\n", n, n, o.smtName(), o.smtName())
		}
	case ASqrt:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		p := e.poly(a.p)
		fmt.Fprintf(&e.ax, "(assert (>= %s 0.0))\n(assert (= (* %s %s) %s))\n", n, n, n, p)
	case APow:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n(assert (> %s 0.0))\n", n, n)
	case AUF:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		if a.nneg {
			fmt.Fprintf(&e.ax, "(assert (>= %s 0.0))\n", n)
		}
		if a.npos {
			fmt.Fprintf(&e.ax, "(assert (<= %s 0.0))\n", n)
		}
	case AIte:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		c := e.bool_(a.cond)
		fmt.Fprintf(&e.ax, "(assert (= %s (ite %s %s %s)))\n", n, c, e.poly(a.p), e.poly(a.q))
	case AInd:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		c := e.bool_(a.cond)
		fmt.Fprintf(&e.ax, "(assert (= %s (ite %s 1.0 0.0)))\n", n, c)
	case AInv:
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		p := e.poly(a.p)
		fmt.Fprintf(&e.ax, "(assert (=> (distinct %s 0.0) (= (* %s %s) 1.0)))\n", p, n, p)
		if a.pos {
			fmt.Fprintf(&e.ax, "(assert (> %s 0.0))\n", n)
		}
		if a.npos {
			fmt.Fprintf(&e.ax, "(assert (< %s 0.0))\n", n)
		}
	case ATrunc:
		fmt.Fprintf(&e.decl, "(declare-const %s Int)\n", n)
		p := e.poly(a.p)
		fmt.Fprintf(&e.ax, "(assert (= %s (ite (>= %s 0.0) (to_int %s) (- (to_int (- %s))))))\n", n, p, p, p)
	case AFloor:
		fmt.Fprintf(&e.decl, "(declare-const %s Int)\n", n)
		fmt.Fprintf(&e.ax, "(assert (= %s (to_int %s)))\n", n, e.poly(a.p))
	case AIDiv:
		fmt.Fprintf(&e.decl, "(declare-const %s Int)\n", n)
		if pi, ok := e.polyInt(a.p); ok {
			c, _ := a.q.constVal()
			fmt.Fprintf(&e.ax, "(assert (= %s (div %s %s)))\n", n, pi, ratSMT(c, true))
		} else {
			e.opq++
		}
	case AOpaque:
		// over the polynomial cap: emit the raw expression
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", n)
		fmt.Fprintf(&e.ax, "(assert (= %s %s))\n", n, e.rawNode1(a.node))
	}
}

func (e *emitter) invName(a *Atom) string {
	nm := e.atomReal(a)
	in := "i" + strconv.Itoa(a.id)
	if !e.inv[a] {
		e.inv[a] = true
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", in)
		fmt.Fprintf(&e.ax, "(assert (=> (distinct %s 0.0) (= (* %s %s) 1.0)))\n", nm, nm, in)
		if a.pos {
			fmt.Fprintf(&e.ax, "(assert (> %s 0.0))\n", in)
		}
	}
	return in
}

func (e *emitter) poly(p *Poly) string {
	if len(p.ms) == 0 {
		return "0.0"
	}
	var parts []string
	for _, m := range p.ms {
		var f []string
		one := m.c.IsInt() && m.c.Num().IsInt64() && m.c.Num().Int64() == 1
		if !one || len(m.m.f) == 0 {
			f = append(f, ratSMT(m.c, false))
		}
		for _, x := range m.m.f {
			ex, nm := x.e, ""
			if ex < 0 {
				nm, ex = e.invName(x.a), -ex
			} else {
				nm = e.atomReal(x.a)
			}
			for i := 0; i < ex; i++ {
				f = append(f, nm)
			}
		}
		if len(f) == 1 {
			parts = append(parts, f[0])
		} else {
			parts = append(parts, "(* "+strings.Join(f, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (e *emitter) polyInt(p *Poly) (string, bool) {
	if !e.t.polyIsInt(p) {
		// scaled integer polynomial: clear coefficient denominators
		l := big.NewInt(1)
		for _, m := range p.ms {
			d := m.c.Denom()
			g := new(big.Int).GCD(nil, nil, l, d)
			l.Mul(l, new(big.Int).Div(d, g))
			for _, f := range m.m.f {
				if f.e < 0 || !f.a.isInt {
					return "", false
				}
			}
		}
		p = e.t.polyScale(p, new(big.Rat).SetInt(l))
	}
	for _, m := range p.ms {
		for _, f := range m.m.f {
			if f.a.kind == AInd || f.a.kind == AOpaque || f.a.kind == AIte {
				return "", false
			}
		}
	}
	if len(p.ms) == 0 {
		return "0", true
	}
	var parts []string
	for _, m := range p.ms {
		var f []string
		one := m.c.IsInt() && m.c.Num().IsInt64() && m.c.Num().Int64() == 1
		if !one || len(m.m.f) == 0 {
			f = append(f, ratSMT(m.c, true))
		}
		for _, x := range m.m.f {
			e.need(x.a)
			for i := 0; i < x.e; i++ {
				f = append(f, x.a.smtName())
			}
		}
		if len(f) == 1 {
			parts = append(parts, f[0])
		} else {
			parts = append(parts, "(* "+strings.Join(f, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0], true
	}
	return "(+ " + strings.Join(parts, " ") + ")", true
}

func (e *emitter) bool_(b *Bool) string {
	switch b.k {
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	}
	if s, ok := e.bseen[b]; ok {
		return s
	}
	var s string
	switch b.k {
	case BVar:
		s = "b" + strconv.Itoa(b.id)
		fmt.Fprintf(&e.decl, "(declare-const %s Bool)\n", s)
		e.bvars = append(e.bvars, b)
	case BLT, BLE, BEQ:
		op := map[BKind]string{BLT: "<", BLE: "<=", BEQ: "="}[b.k]
		if pi, ok := e.polyInt(b.p); ok {
			s = "(" + op + " " + pi + " 0)"
		} else {
			s = "(" + op + " " + e.poly(b.p) + " 0.0)"
		}
	case BAnd:
		s = "(and " + e.bool_(b.x) + " " + e.bool_(b.y) + ")"
	case BOr:
		s = "(or " + e.bool_(b.x) + " " + e.bool_(b.y) + ")"
	case BNot:
		s = "(not " + e.bool_(b.x) + ")"
	}
	e.bseen[b] = s
	return s
}

func (e *emitter) pairAxioms() {
	mono := func(l []*Atom) {
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		if len(l) > 5 {
			l = l[:5]
		}
		for i := range l {
			for j := 0; j < i; j++ {
				pi, pj := e.poly(l[i].p), e.poly(l[j].p)
				g := ""
				if l[i].kind == ALog {
					g = fmt.Sprintf("(> %s 0.0) (> %s 0.0) ", pi, pj)
				}
				fmt.Fprintf(&e.ax, "(assert (=> (and %s(< %s %s)) (< %s %s)))\n", g, pi, pj, l[i].smtName(), l[j].smtName())
				fmt.Fprintf(&e.ax, "(assert (=> (and %s(< %s %s)) (< %s %s)))\n", g, pj, pi, l[j].smtName(), l[i].smtName())
				if l[i].kind == AExp {
					// e^25 > 10^10, e^600 > 10^260
					for _, k := range [][2]string{{"25.0", "1" + strings.Repeat("0", 10)}, {"600.0", "1" + strings.Repeat("0", 260)}} {
						fmt.Fprintf(&e.ax, "(assert (=> (< %s (- %s %s)) (< (* %s.0 %s) %s)))\n", pi, pj, k[0], k[1], l[i].smtName(), l[j].smtName())
						fmt.Fprintf(&e.ax, "(assert (=> (< %s (- %s %s)) (< (* %s.0 %s) %s)))\n", pj, pi, k[0], k[1], l[j].smtName(), l[i].smtName())
					}
				}
			}
		}
	}
	for k := 0; k < 3; k++ {
		a, b := len(e.exps), len(e.logs)
		if k == 0 || a != len(e.exps) || b != len(e.logs) {
			_ = a
		}
	}
	mono(append([]*Atom(nil), e.exps...))
	mono(append([]*Atom(nil), e.logs...))
}

// body is the self-contained list of declarations and assertions.
func (e *emitter) body(conds []*Bool) string {
	var body strings.Builder
	for _, c := range conds {
		s := e.bool_(c)
		body.WriteString("(assert " + s + ")\n")
	}
	e.pairAxioms()
	return e.decl.String() + e.ax.String() + body.String()
}

func timeoutOpt(d time.Duration) string {
	return "(set-option :timeout " + strconv.Itoa(int(d.Milliseconds())) + ")\n"
}

/* ---------- raw emission (cross-check of the canonicaliser) ---------- */

// rawNode emits the term as built by execution, without canonicalisation;
// transcendental functions become the same constants the canonical form uses.
func (e *emitter) rawNode(n *Node) string {
	if s, ok := e.raw[n]; ok {
		return s
	}
	s := e.rawNode1(n)
	if n.k != KConst && n.k != KVar && len(s) > 12 {
		nm := "r" + strconv.Itoa(n.id)
		fmt.Fprintf(&e.decl, "(declare-const %s Real)\n", nm)
		fmt.Fprintf(&e.ax, "(assert (= %s %s))\n", nm, s)
		s = nm
	}
	e.raw[n] = s
	return s
}

func (e *emitter) rawNode1(n *Node) string {
	switch n.k {
	case KConst:
		return ratSMT(n.rat, false)
	case KAdd:
		return "(+ " + e.rawNode(n.a) + " " + e.rawNode(n.b) + ")"
	case KSub:
		return "(- " + e.rawNode(n.a) + " " + e.rawNode(n.b) + ")"
	case KMul:
		return "(* " + e.rawNode(n.a) + " " + e.rawNode(n.b) + ")"
	case KDiv:
		return "(/ " + e.rawNode(n.a) + " " + e.rawNode(n.b) + ")"
	case KIte:
		return "(ite " + e.bool_(n.cond) + " " + e.rawNode(n.a) + " " + e.rawNode(n.b) + ")"
	}
	return e.poly(e.t.canon(n))
}

/* ---------- checking ---------- */

type Model struct {
	num  map[string]float64
	rat  map[string]*big.Rat
	bool map[string]bool
}

const quickTO = 400 * time.Millisecond

// decideBody runs one query: first in an incremental scope (cheap), then, if
// undecided, from a reset solver (z3 then picks its full strategy). The scope
// is left open when withScope is set and the verdict is Sat.
func (s *Solver) decideBody(body string, timeout time.Duration) Verdict {
	s.nq++
	q := quickTO
	if timeout < q {
		q = timeout
	}
	if s.dirty > 20000 {
		s.dirty = 0
		s.kill()
	}
	pre := ""
	if s.open {
		pre = "(pop 1)\n"
	}
	if s.mode == 1 || s.cmd == nil {
		pre = "(reset)\n"
	}
	s.mode, s.open = 0, true
	s.dirty++
	lines, ok := s.run(pre+timeoutOpt(q)+"(push 1)\n"+body+"(check-sat)\n", q+10*time.Second)
	v := s.parse(lines, ok)
	if v == Unknown {
		s.mode, s.open = 1, false
		lines, ok = s.run("(reset)\n"+timeoutOpt(timeout)+body+"(check-sat)\n", timeout+10*time.Second)
		v = s.parse(lines, ok)
	}
	switch v {
	case Sat:
		s.nsat++
	case Unsat:
		s.nunsat++
	default:
		s.nunk++
	}
	return v
}

func (s *Solver) Check(t *TermTab, conds []*Bool, timeout time.Duration, wantModel bool) (Verdict, *Model) {
	for _, c := range conds {
		if c == t.False {
			return Unsat, nil
		}
	}
	e := newEmitter(t)
	v := s.decideBody(e.body(conds), timeout)
	if v != Sat || !wantModel {
		return v, nil
	}
	m := &Model{num: map[string]float64{}, rat: map[string]*big.Rat{}, bool: map[string]bool{}}
	var names []string
	byName := map[string]*Atom{}
	for _, a := range e.vars {
		names = append(names, a.smtName())
		byName[a.smtName()] = a
	}
	bn := map[string]*Bool{}
	for _, b := range e.bvars {
		names = append(names, "b"+strconv.Itoa(b.id))
		bn["b"+strconv.Itoa(b.id)] = b
	}
	get := func(names []string, dec string) (miss []string) {
		if len(names) == 0 {
			return nil
		}
		lines, ok := s.run("(set-option :pp.decimal "+dec+")\n(set-option :pp.decimal_precision 30)\n(get-value ("+strings.Join(names, " ")+"))\n", timeout+5*time.Second)
		if !ok {
			return nil
		}
		toks := tokenize(strings.Join(lines, " "))
		ex, _ := parseSexp(toks, 0)
		for _, pr := range ex.l {
			if len(pr.l) != 2 {
				continue
			}
			nm := pr.l[0].s
			if a, ok := byName[nm]; ok {
				r := evalSexp(pr.l[1])
				if r == nil {
					miss = append(miss, nm)
					continue
				}
				m.rat[a.name] = r
				f, _ := r.Float64()
				m.num[a.name] = math.Max(a.node.lo, math.Min(a.node.hi, f))
			} else if b, ok := bn[nm]; ok {
				m.bool[b.name] = pr.l[1].s == "true"
			}
		}
		return miss
	}
	get(get(names, "false"), "true")
	return v, m
}

func (s *Solver) parse(lines []string, ok bool) Verdict {
	v := Unknown
	for _, l := range lines {
		if strings.HasPrefix(l, "(error") {
			s.nerr++
			s.lastErr = l
			return Unknown
		}
		switch strings.TrimSpace(l) {
		case "sat":
			v = Sat
		case "unsat":
			v = Unsat
		}
	}
	if !ok {
		v = Unknown
	}
	return v
}

// CheckRaw decides pc ∧ ¬(a=b for all pairs) with the pairs emitted raw.
func (s *Solver) CheckRaw(t *TermTab, pc []*Bool, pairs [][2]*Node, timeout time.Duration) Verdict {
	e := newEmitter(t)
	var ds []string
	for _, p := range pairs {
		ds = append(ds, "(distinct "+e.rawNode(p[0])+" "+e.rawNode(p[1])+")")
	}
	if len(ds) == 0 {
		return Unsat
	}
	neg := "(assert (or false " + strings.Join(ds, " ") + "))\n"
	var body strings.Builder
	for _, c := range pc {
		body.WriteString("(assert " + e.bool_(c) + ")\n")
	}
	e.pairAxioms()
	return s.decideBody(e.decl.String()+e.ax.String()+body.String()+neg, timeout)
}

type sexp struct {
	s string
	l []sexp
}

func tokenize(s string) []string {
	var r []string
	cur := strings.Builder{}
	fl := func() {
		if cur.Len() > 0 {
			r = append(r, cur.String())
			cur.Reset()
		}
	}
	for _, c := range s {
		switch {
		case c == '(' || c == ')':
			fl()
			r = append(r, string(c))
		case c == ' ' || c == '\n' || c == '\t':
			fl()
		default:
			cur.WriteRune(c)
		}
	}
	fl()
	return r
}

func parseSexp(t []string, i int) (sexp, int) {
	if i >= len(t) {
		return sexp{}, i
	}
	if t[i] != "(" {
		return sexp{s: t[i]}, i + 1
	}
	i++
	var l []sexp
	for i < len(t) && t[i] != ")" {
		var x sexp
		x, i = parseSexp(t, i)
		l = append(l, x)
	}
	return sexp{l: l}, i + 1
}

func evalSexp(x sexp) *big.Rat {
	if x.l == nil {
		s := strings.TrimSuffix(x.s, "?")
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return nil
		}
		return r
	}
	if len(x.l) == 0 {
		return nil
	}
	switch x.l[0].s {
	case "-":
		a := evalSexp(x.l[1])
		if a == nil {
			return nil
		}
		if len(x.l) == 2 {
			return a.Neg(a)
		}
		b := evalSexp(x.l[2])
		if b == nil {
			return nil
		}
		return a.Sub(a, b)
	case "/":
		a, b := evalSexp(x.l[1]), evalSexp(x.l[2])
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return a.Quo(a, b)
	case "to_real":
		return evalSexp(x.l[1])
	}
	return nil
}
