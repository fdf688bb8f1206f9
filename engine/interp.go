package main

// Symbolic executor for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

/* ---------- precompiled functions (shared by workers) ---------- */

type opnd struct {
	k uint8 // 0 slot, 1 const, 2 global, 3 func, 4 builtin, 5 none
	i int
	v ssa.Value
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int
}

type cblock struct {
	phis []cinstr
	ins  []cinstr
}

type FnInfo struct {
	id     int
	fn     *ssa.Function
	nslots int
	blocks []cblock
	consts []*ssa.Const
	params []int
	frees  []int
	name   string
	intr   intrinsic
	inMod  bool
	hasDef bool
}

type Program struct {
	prog  *ssa.Program
	mu    sync.RWMutex
	infos map[*ssa.Function]*FnInfo
	list  []*FnInfo
	mod   string
	pkgs  map[string]*ssa.Package
	meths sync.Map
	sizes types.Sizes
	errT  types.Type // *errors.errorString
	rtErr types.Type
}

func (P *Program) info(fn *ssa.Function) *FnInfo {
	P.mu.RLock()
	fi := P.infos[fn]
	P.mu.RUnlock()
	if fi != nil {
		return fi
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	if fi = P.infos[fn]; fi != nil {
		return fi
	}
	fi = P.compile(fn)
	fi.id = len(P.list)
	P.list = append(P.list, fi)
	P.infos[fn] = fi
	return fi
}

func (P *Program) compile(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, name: fn.String()}
	if o := fn.Origin(); o != nil {
		fi.intr = intrinsics[o.String()]
	}
	if fi.intr == nil {
		fi.intr = intrinsics[fi.name]
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Parent() != nil {
		pk = fn.Parent().Pkg
	}
	if pk != nil {
		pp := pk.Pkg.Path()
		fi.inMod = (pp == P.mod || strings.HasPrefix(pp, P.mod+"/")) && !strings.HasPrefix(pp, P.mod+"/zz_verif")
	}
	slots := map[ssa.Value]int{}
	cidx := map[*ssa.Const]int{}
	ns := 0
	add := func(v ssa.Value) int {
		if s, ok := slots[v]; ok {
			return s
		}
		slots[v] = ns
		ns++
		return ns - 1
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.frees = append(fi.frees, add(p))
	}
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: 5}
		case *ssa.Const:
			i, ok := cidx[x]
			if !ok {
				i = len(fi.consts)
				cidx[x] = i
				fi.consts = append(fi.consts, x)
			}
			return opnd{k: 1, i: i, v: v}
		case *ssa.Global:
			return opnd{k: 2, v: v}
		case *ssa.Function:
			return opnd{k: 3, v: v}
		case *ssa.Builtin:
			return opnd{k: 4, v: v}
		}
		return opnd{k: 0, i: add(v), v: v}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			var rands [8]*ssa.Value
			for _, r := range in.Operands(rands[:0]) {
				ci.ops = append(ci.ops, mk(*r))
			}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = add(v)
			}
			switch in.(type) {
			case *ssa.Phi:
				fi.blocks[bi].phis = append(fi.blocks[bi].phis, ci)
				continue
			case *ssa.Defer:
				fi.hasDef = true
			}
			fi.blocks[bi].ins = append(fi.blocks[bi].ins, ci)
		}
	}
	if fn.Recover != nil {
		fi.hasDef = true
	}
	fi.nslots = ns
	return fi
}

/* ---------- frames ---------- */

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	w         *Worker
	fi        *FnInfo
	regs      []Value
	caller    *frame
	block     int
	prev      *ssa.BasicBlock
	defers    []deferred
	panicking bool
	pv        targetPanic
	result    Value
	consts    []Value
	depth     int
}

func (fr *frame) get(o *opnd) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return fr.consts[o.i]
	case 2:
		return fr.w.global(o.v.(*ssa.Global))
	case 3:
		return &Closure{fn: o.v.(*ssa.Function)}
	case 4:
		return &Closure{bi: o.v.(*ssa.Builtin)}
	}
	return nil
}

func (w *Worker) constsOf(fi *FnInfo) []Value {
	if fi.id < len(w.consts) && w.consts[fi.id] != nil {
		return w.consts[fi.id]
	}
	for len(w.consts) <= fi.id {
		w.consts = append(w.consts, nil)
	}
	r := make([]Value, len(fi.consts))
	for i, c := range fi.consts {
		r[i] = w.constVal(c)
	}
	if len(r) == 0 {
		r = []Value{}
	}
	w.consts[fi.id] = r
	return r
}

// snapFloat: a float constant stands for its shortest decimal notation.
func (w *Worker) snapFloat(f float64) *Node {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return w.t.Float(f)
	}
	s := strconv.FormatFloat(f, 'e', -1, 64)
	if len(strings.TrimLeft(s[:strings.IndexByte(s, 'e')], "-")) <= 14 {
		r, ok := new(big.Rat).SetString(s)
		if ok {
			return w.t.Rat(r)
		}
	}
	return w.t.Float(f)
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	bt, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		// type parameter instantiated etc.
		unmodelled("const of type %s", c.Type())
	}
	switch {
	case bt.Info()&types.IsBoolean != 0:
		return w.t.BoolConst(constant.BoolVal(c.Value))
	case bt.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case bt.Info()&types.IsInteger != 0:
		if bt.Info()&types.IsUnsigned != 0 {
			return int64(c.Uint64())
		}
		return c.Int64()
	case bt.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return w.snapFloat(f)
	}
	unmodelled("const %s", c)
	return nil
}

func (w *Worker) zero(T types.Type) Value {
	switch t := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil || t.Kind() == types.UnsafePointer:
			return (*Cell)(nil)
		case t.Info()&types.IsBoolean != 0:
			return w.t.False
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return w.t.Zero
		}
		unmodelled("zero of %s", T)
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		f := make([]Value, t.NumFields())
		for i := range f {
			f[i] = w.zero(t.Field(i).Type())
		}
		return AggVal{f}
	case *types.Array:
		f := make([]Value, t.Len())
		for i := range f {
			f[i] = w.zero(t.Elem())
		}
		return AggVal{f}
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = w.zero(t.At(i).Type())
		}
		return r
	}
	unmodelled("zero of %s", T)
	return nil
}

// initCell prepares storage for a location of type T.
func (w *Worker) initCell(c *Cell, T types.Type) {
	switch t := T.Underlying().(type) {
	case *types.Struct:
		a := w.newAgg(t.NumFields())
		for i := range a.cells {
			w.initCell(&a.cells[i], t.Field(i).Type())
		}
		c.v = a
	case *types.Array:
		c.v = w.newArr(t.Elem(), int(t.Len()))
	default:
		c.v = w.zero(T)
	}
}

func (w *Worker) newAgg(n int) *Agg {
	w.clock++
	a := &Agg{cells: make([]Cell, n), birth: w.clock}
	for i := range a.cells {
		a.cells[i].owner = a
	}
	return a
}

func (w *Worker) newArr(elem types.Type, n int) *Agg {
	w.allocs += n
	if w.allocs > w.cfg.maxAlloc {
		panic(pathEnd{"hang", "allocation limit exceeded"})
	}
	a := w.newAgg(n)
	switch elem.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range a.cells {
			w.initCell(&a.cells[i], elem)
		}
	default:
		z := w.zero(elem)
		for i := range a.cells {
			a.cells[i].v = z
		}
	}
	return a
}

func (w *Worker) newCell(T types.Type) *Cell {
	a := w.newAgg(1)
	w.initCell(&a.cells[0], T)
	return &a.cells[0]
}

func (w *Worker) global(g *ssa.Global) *Cell {
	if c, ok := w.globals[g]; ok {
		return c
	}
	if !w.initedPkg(g.Pkg) {
		if v, ok := stdGlobals[g.String()]; ok {
			c := w.newCell(g.Type().Underlying().(*types.Pointer).Elem())
			v(w, c)
			w.globals[g] = c
			return c
		}
		unmodelled("global %s of an uninitialised package", g)
	}
	c := w.newCell(g.Type().Underlying().(*types.Pointer).Elem())
	c.owner.birth = 0
	w.globals[g] = c
	return c
}

var stdGlobals = map[string]func(w *Worker, c *Cell){}

func (w *Worker) initedPkg(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	pp := p.Pkg.Path()
	return pp == w.P.mod || strings.HasPrefix(pp, w.P.mod+"/")
}

/* ---------- runtime errors ---------- */

func (w *Worker) rtPanic(msg string) {
	panic(targetPanic{v: w.mkError("runtime error: " + msg), rt: msg})
}

func (w *Worker) mkError(msg string) IfaceV {
	c := w.newCell(w.P.errT.(*types.Pointer).Elem())
	c.v.(*Agg).cells[0].v = msg
	return IfaceV{w.P.errT, c}
}

/* ---------- calls ---------- */

const maxDepth = 20000

func (w *Worker) call(caller *frame, fv Value, args []Value, site ssa.Instruction) Value {
	cl, ok := fv.(*Closure)
	if !ok {
		unmodelled("call of %T", fv)
	}
	if cl == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.bi != nil {
		unmodelled("indirect builtin %s", cl.bi.Name())
	}
	return w.callFn(caller, cl.fn, cl.fv, args)
}

func (w *Worker) callFn(caller *frame, fn *ssa.Function, fv []Value, args []Value) Value {
	fi := w.P.info(fn)
	if fi.intr != nil {
		return fi.intr(w, caller, args)
	}
	if fn.Blocks == nil {
		unmodelled("no body: %s", fi.name)
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Parent() == nil && !w.initedPkg(fn.Pkg) {
		return nil
	}
	w.fnHits[fi.id]++
	fr := &frame{w: w, fi: fi, regs: make([]Value, fi.nslots), caller: caller, consts: w.constsOf(fi)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			panic(pathEnd{"hang", "call depth limit exceeded in " + fi.name})
		}
	}
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fi.frees {
		fr.regs[p] = fv[i]
	}
	if !fi.hasDef {
		fr.run()
		return fr.result
	}
	fr.runProtected()
	return fr.result
}

func (fr *frame) runProtected() {
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = true
				fr.pv = tp
			}
		}()
		fr.run()
	}()
	if fr.panicking {
		fr.runDefers()
		if fr.panicking {
			panic(fr.pv)
		}
		// recovered
		if rb := fr.fi.fn.Recover; rb != nil {
			fr.block = rb.Index
			fr.prev = nil
			fr.exec()
		} else {
			fr.result = fr.w.zeroResult(fr.fi.fn)
		}
	}
}

func (w *Worker) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(rs.At(0).Type())
	}
	return w.zero(rs)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.pv = tp
				}
			}()
			if cl, ok := d.fn.(*Closure); ok && cl != nil && cl.bi != nil {
				fr.builtin(cl.bi, d.args, d.call)
			} else {
				fr.w.call(fr, d.fn, d.args, nil)
			}
		}()
	}
}

func (fr *frame) run() { fr.block = 0; fr.exec() }

// call target and arguments
func (fr *frame) prepCall(cc *ssa.CallCommon, ops []opnd) (Value, []Value) {
	if cc.IsInvoke() {
		recv := fr.get(&ops[0])
		iv := recv.(IfaceV)
		if iv.t == nil {
			fr.w.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := fr.w.P.method(iv.t, cc.Method)
		if fn == nil {
			unmodelled("method %s of %s", cc.Method, iv.t)
		}
		args := make([]Value, 0, len(ops))
		args = append(args, iv.v)
		for i := 1; i < len(ops); i++ {
			args = append(args, fr.get(&ops[i]))
		}
		return &Closure{fn: fn}, args
	}
	f := fr.get(&ops[0])
	args := make([]Value, 0, len(ops))
	for i := 1; i < len(ops); i++ {
		args = append(args, fr.get(&ops[i]))
	}
	return f, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (P *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := P.meths.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	P.meths.Store(k, f)
	return f
}

func (fr *frame) goTo(b *ssa.BasicBlock) {
	cur := fr.fi.fn.Blocks[fr.block]
	fr.enter(cur, b)
}

func (fr *frame) enter(from, to *ssa.BasicBlock) {
	cb := &fr.fi.blocks[to.Index]
	if len(cb.phis) > 0 {
		ei := -1
		for i, p := range to.Preds {
			if p == from {
				ei = i
				break
			}
		}
		if len(cb.phis) == 1 {
			fr.regs[cb.phis[0].dst] = fr.get(&cb.phis[0].ops[ei])
		} else {
			tmp := make([]Value, len(cb.phis))
			for i := range cb.phis {
				tmp[i] = fr.get(&cb.phis[i].ops[ei])
			}
			for i := range cb.phis {
				fr.regs[cb.phis[i].dst] = tmp[i]
			}
		}
	}
	fr.block = to.Index
}

func (fr *frame) exec() {
	w := fr.w
	for {
		cb := &fr.fi.blocks[fr.block]
		w.steps += len(cb.ins)
		if w.steps > w.cfg.maxSteps {
			panic(pathEnd{"hang", "step limit exceeded in " + fr.fi.name})
		}
		if guard.abort.Load() != 0 {
			guardCheck()
		}
		next := fr.execBlock(cb)
		if !next {
			return
		}
	}
}

func (fr *frame) execBlock(cb *cblock) bool {
	w := fr.w
	for k := range cb.ins {
		ci := &cb.ins[k]
		switch in := ci.in.(type) {
		case *ssa.Jump:
			fr.goTo(in.Block().Succs[0])
			return true
		case *ssa.If:
			c := fr.get(&ci.ops[0]).(*Bool)
			if w.decide(c) {
				fr.goTo(in.Block().Succs[0])
			} else {
				fr.goTo(in.Block().Succs[1])
			}
			return true
		case *ssa.Return:
			switch len(ci.ops) {
			case 0:
			case 1:
				fr.result = fr.get(&ci.ops[0])
			default:
				r := make(Tuple, len(ci.ops))
				for i := range ci.ops {
					r[i] = fr.get(&ci.ops[i])
				}
				fr.result = r
			}
			return false
		case *ssa.Panic:
			v := fr.get(&ci.ops[0])
			panic(targetPanic{v: v})
		case *ssa.RunDefers:
			fr.runDefers()
			if fr.panicking {
				panic(fr.pv)
			}
		case *ssa.Store:
			p := fr.get(&ci.ops[0]).(*Cell)
			if p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			v := fr.get(&ci.ops[1])
			w.wrote(birth(p), fr)
			if w.log != nil {
				w.log.write(p, fr)
			}
			if _, ok := p.v.(*Agg); ok {
				storeCell(p, v)
			} else {
				p.v = v
			}
		case *ssa.UnOp:
			fr.regs[ci.dst] = fr.unop(in, fr.get(&ci.ops[0]))
		case *ssa.BinOp:
			fr.regs[ci.dst] = w.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
		case *ssa.Call:
			cc := in.Common()
			if ci.ops[0].k == 4 {
				args := make([]Value, len(ci.ops)-1)
				for i := range args {
					args[i] = fr.get(&ci.ops[i+1])
				}
				fr.regs[ci.dst] = fr.builtin(ci.ops[0].v.(*ssa.Builtin), args, cc)
				continue
			}
			if ci.ops[0].k == 3 && !cc.IsInvoke() {
				args := make([]Value, len(ci.ops)-1)
				for i := range args {
					args[i] = fr.get(&ci.ops[i+1])
				}
				w.curSite = in
				fr.regs[ci.dst] = w.callFn(fr, ci.ops[0].v.(*ssa.Function), nil, args)
				continue
			}
			f, args := fr.prepCall(cc, ci.ops)
			w.curSite = in
			fr.regs[ci.dst] = w.call(fr, f, args, in)
		case *ssa.Defer:
			f, args := fr.prepCall(in.Common(), ci.ops)
			fr.defers = append(fr.defers, deferred{f, args, in.Common()})
		case *ssa.Go:
			f, args := fr.prepCall(in.Common(), ci.ops)
			w.goroutine(fr, f, args)
		case *ssa.Alloc:
			fr.regs[ci.dst] = w.newCell(in.Type().Underlying().(*types.Pointer).Elem())
		case *ssa.FieldAddr:
			p := fr.get(&ci.ops[0]).(*Cell)
			if p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			a, ok := p.v.(*Agg)
			if !ok {
				unmodelled("fieldaddr of %T", p.v)
			}
			fr.regs[ci.dst] = &a.cells[in.Field]
		case *ssa.Field:
			fr.regs[ci.dst] = fr.get(&ci.ops[0]).(AggVal).f[in.Field]
		case *ssa.IndexAddr:
			x := fr.get(&ci.ops[0])
			iv := fr.get(&ci.ops[1])
			switch s := x.(type) {
			case SliceV:
				i := fr.index(iv, s.n)
				fr.regs[ci.dst] = &s.a.cells[s.off+i]
			case *Cell:
				if s == nil {
					w.rtPanic("invalid memory address or nil pointer dereference")
				}
				a := s.v.(*Agg)
				i := fr.index(iv, len(a.cells))
				fr.regs[ci.dst] = &a.cells[i]
			default:
				unmodelled("indexaddr %T", x)
			}
		case *ssa.Index:
			x := fr.get(&ci.ops[0])
			iv := fr.get(&ci.ops[1])
			switch s := x.(type) {
			case AggVal:
				fr.regs[ci.dst] = s.f[fr.index(iv, len(s.f))]
			case string:
				fr.regs[ci.dst] = int64(s[fr.index(iv, len(s))])
			default:
				unmodelled("index %T", x)
			}
		case *ssa.Slice:
			fr.regs[ci.dst] = fr.slice(in, ci)
		case *ssa.MakeSlice:
			el := in.Type().Underlying().(*types.Slice).Elem()
			n := fr.makeLen(fr.get(&ci.ops[0]))
			c := n
			if ci.ops[1] != ci.ops[0] {
				c = fr.makeLen(fr.get(&ci.ops[1]))
			}
			if n < 0 || n > c {
				w.rtPanic("makeslice: len out of range")
			}
			fr.regs[ci.dst] = SliceV{w.newArr(el, c), 0, n, c}
		case *ssa.MakeMap:
			w.clock++
			fr.regs[ci.dst] = &MapObj{m: map[Value]int{}, birth: w.clock}
		case *ssa.MakeChan:
			n := fr.makeLen(fr.get(&ci.ops[0]))
			fr.regs[ci.dst] = &ChanObj{cap: n}
		case *ssa.MakeInterface:
			fr.regs[ci.dst] = IfaceV{in.X.Type(), fr.get(&ci.ops[0])}
		case *ssa.MakeClosure:
			fv := make([]Value, len(ci.ops)-1)
			for i := range fv {
				fv[i] = fr.get(&ci.ops[i+1])
			}
			fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), fv: fv}
		case *ssa.Extract:
			fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[in.Index]
		case *ssa.ChangeType:
			fr.regs[ci.dst] = fr.get(&ci.ops[0])
		case *ssa.ChangeInterface:
			fr.regs[ci.dst] = fr.get(&ci.ops[0])
		case *ssa.SliceToArrayPointer:
			unmodelled("slice to array pointer")
		case *ssa.Convert:
			fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
		case *ssa.MultiConvert:
			fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
		case *ssa.TypeAssert:
			fr.regs[ci.dst] = fr.typeAssert(in, fr.get(&ci.ops[0]).(IfaceV))
		case *ssa.Lookup:
			fr.regs[ci.dst] = fr.lookup(in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
		case *ssa.MapUpdate:
			m := fr.get(&ci.ops[0]).(*MapObj)
			if m == nil {
				panic(targetPanic{v: w.mkError("assignment to entry in nil map"), rt: "assignment to entry in nil map"})
			}
			w.mapSet(fr, m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]), in.Map.Type().Underlying().(*types.Map).Elem())
		case *ssa.Range:
			x := fr.get(&ci.ops[0])
			switch s := x.(type) {
			case string:
				it := &rangeIter{isS: true}
				for p, r := range s {
					it.str = append(it.str, r)
					it.pos = append(it.pos, p)
				}
				fr.regs[ci.dst] = it
			case *MapObj:
				if s != nil && w.log != nil {
					w.log.read(&s.hdr, fr)
				}
				it := &rangeIter{m: s}
				if s != nil && s.n > 1 && w.reversed() {
					it.rev, it.i = true, len(s.keys)
				}
				fr.regs[ci.dst] = it
			}
		case *ssa.Next:
			fr.regs[ci.dst] = fr.next(in, fr.get(&ci.ops[0]).(*rangeIter))
		case *ssa.Send:
			ch := fr.get(&ci.ops[0]).(*ChanObj)
			if ch == nil {
				panic(pathEnd{"hang", "send on nil channel"})
			}
			ch.buf = append(ch.buf, fr.get(&ci.ops[1]))
		case *ssa.Select:
			unmodelled("select")
		default:
			unmodelled("instruction %T", in)
		}
	}
	panic("block without terminator")
}

func (fr *frame) makeLen(v Value) int {
	switch x := v.(type) {
	case int64:
		if x < 0 {
			fr.w.rtPanic("makeslice: len out of range")
		}
		if x > int64(fr.w.cfg.maxAlloc) {
			if x > 1<<44 {
				fr.w.rtPanic("makeslice: len out of range")
			}
			panic(pathEnd{"hang", "allocation limit exceeded"})
		}
		return int(x)
	case *Node:
		if fr.w.decide(fr.w.t.LT(x, fr.w.t.Zero)) {
			fr.w.rtPanic("makeslice: len out of range")
		}
		return fr.makeLen(fr.w.concInt(x))
	}
	panic("makeLen")
}

func (fr *frame) index(v Value, n int) int {
	w := fr.w
	switch x := v.(type) {
	case int64:
		if x < 0 || x >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case *Node:
		if w.decide(w.t.LT(x, w.t.Zero)) || w.decide(w.t.LE(w.t.Int(int64(n)), x)) {
			w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		return int(w.concInt(x))
	}
	panic("index")
}

func (fr *frame) slice(in *ssa.Slice, ci *cinstr) Value {
	w := fr.w
	x := fr.get(&ci.ops[0])
	opt := func(v ssa.Value) (Value, bool) {
		if v == nil {
			return nil, false
		}
		for i := 1; i < len(ci.ops); i++ {
			if ci.ops[i].v == v {
				return fr.get(&ci.ops[i]), true
			}
		}
		return nil, false
	}
	toI := func(v Value, max int) int {
		switch y := v.(type) {
		case int64:
			if y < 0 || y > int64(max) {
				w.rtPanic("slice bounds out of range")
			}
			return int(y)
		case *Node:
			if w.decide(w.t.LT(y, w.t.Zero)) || w.decide(w.t.LT(w.t.Int(int64(max)), y)) {
				w.rtPanic("slice bounds out of range")
			}
			return int(w.concInt(y))
		}
		panic("slice idx")
	}
	var a *Agg
	off, n, cp := 0, 0, 0
	switch s := x.(type) {
	case string:
		lo, hi := 0, len(s)
		if v, ok := opt(in.High); ok {
			hi = toI(v, len(s))
		}
		if v, ok := opt(in.Low); ok {
			lo = toI(v, hi)
		}
		return s[lo:hi]
	case SliceV:
		a, off, n, cp = s.a, s.off, s.n, s.cap
	case *Cell:
		if s == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		a = s.v.(*Agg)
		n, cp = len(a.cells), len(a.cells)
	}
	lo, hi, mx := 0, n, cp
	if v, ok := opt(in.Max); ok {
		mx = toI(v, cp)
	}
	if v, ok := opt(in.High); ok {
		hi = toI(v, mx)
	}
	if v, ok := opt(in.Low); ok {
		lo = toI(v, hi)
	}
	if lo > hi {
		w.rtPanic("slice bounds out of range")
	}
	return SliceV{a, off + lo, hi - lo, mx - lo}
}

func (fr *frame) unop(in *ssa.UnOp, x Value) Value {
	w := fr.w
	switch in.Op {
	case token.MUL:
		p := x.(*Cell)
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		if w.log != nil {
			w.log.read(p, fr)
		}
		if _, ok := p.v.(*Agg); ok {
			return loadCell(p)
		}
		return p.v
	case token.NOT:
		return w.t.Not(x.(*Bool))
	case token.SUB:
		switch v := x.(type) {
		case int64:
			return wrapC(-v, in.Type())
		case *Node:
			if isFloat(in.Type()) {
				return w.t.Neg(v)
			}
			return w.wrap(w.t.Neg(v), in.Type())
		}
	case token.XOR:
		if v, ok := x.(int64); ok {
			return wrapC(^v, in.Type())
		}
		return w.wrap(w.t.Sub(w.t.Int(-1), x.(*Node)), in.Type())
	case token.ARROW:
		ch := x.(*ChanObj)
		if ch == nil {
			panic(pathEnd{"hang", "receive from nil channel"})
		}
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		w.join()
		if len(ch.buf) > 0 {
			v := ch.buf[0]
			ch.buf = ch.buf[1:]
			if in.CommaOk {
				return Tuple{v, w.t.True}
			}
			return v
		}
		if ch.closed {
			if in.CommaOk {
				return Tuple{w.zero(et), w.t.False}
			}
			return w.zero(et)
		}
		unmodelled("receive would block under the eager schedule")
	}
	unmodelled("unop %s %T", in.Op, x)
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func intKind(t types.Type) (bits int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func wrapC(v int64, t types.Type) int64 {
	bits, signed := intKind(t)
	if bits == 64 {
		return v
	}
	sh := 64 - bits
	if signed {
		return v << sh >> sh
	}
	return int64(uint64(v) << sh >> sh)
}

func normInt(n *Node) Value {
	if n.isConst() && n.rat.IsInt() && n.rat.Num().IsInt64() {
		return n.rat.Num().Int64()
	}
	return n
}

// wrap reduces a mathematical integer into the range of its Go type.
func (w *Worker) wrap(n *Node, T types.Type) Value {
	bits, signed := intKind(T)
	var min, max *big.Int
	one := big.NewInt(1)
	if signed {
		max = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		min = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		max = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
		min = big.NewInt(0)
	}
	if n.isConst() {
		m := new(big.Int).Lsh(one, uint(bits))
		r := new(big.Int).Sub(n.rat.Num(), min)
		r.Mod(r, m)
		r.Add(r, min)
		if r.IsInt64() {
			return r.Int64()
		}
		return int64(r.Uint64())
	}
	fmin, _ := new(big.Float).SetInt(min).Float64()
	fmax, _ := new(big.Float).SetInt(max).Float64()
	if n.lo >= fmin && n.hi < fmax {
		return n
	}
	nmin, nmax := w.t.Rat(new(big.Rat).SetInt(min)), w.t.Rat(new(big.Rat).SetInt(max))
	m := w.t.Rat(new(big.Rat).SetInt(new(big.Int).Lsh(one, uint(bits))))
	for k := 0; k < 3; k++ {
		over := w.decide(w.t.LT(nmax, n))
		if k == 1 && signed {
			// more than one wrap: a symbolic number of them
			w.freshN++
			q := w.t.Var(fmt.Sprintf("@wrap%d", w.freshN), true, -1e19, 1e19)
			n = w.t.Sub(n, w.t.Mul(m, q))
			w.assume(w.t.LE(nmin, n))
			w.assume(w.t.LE(n, nmax))
			return normInt(n)
		}
		if !over {
			if !w.decide(w.t.LT(n, nmin)) {
				if !signed && bits == 64 && n.hi > 9.2e18 {
					unmodelled("symbolic uint64 above 2^63")
				}
				return normInt(n)
			}
			n = w.t.Add(n, m)
			continue
		}
		n = w.t.Sub(n, m)
	}
	unmodelled("integer overflow by more than one wrap")
	return nil
}

func (w *Worker) toNode(v Value) *Node {
	switch x := v.(type) {
	case int64:
		return w.t.Int(x)
	case *Node:
		return x
	}
	panic(fmt.Sprintf("toNode %T", v))
}

func (w *Worker) binop(op token.Token, T, TY types.Type, x, y Value) Value {
	switch a := x.(type) {
	case int64:
		switch b := y.(type) {
		case int64:
			return w.intOp(op, T, TY, a, b)
		case *Node:
			return w.symIntOp(op, T, TY, x, y)
		}
	case *Node:
		if isFloat(T) {
			return w.floatOp(op, a, y.(*Node))
		}
		return w.symIntOp(op, T, TY, x, y)
	case string:
		b := y.(string)
		switch op {
		case token.ADD:
			return a + b
		case token.EQL:
			return w.t.BoolConst(a == b)
		case token.NEQ:
			return w.t.BoolConst(a != b)
		case token.LSS:
			return w.t.BoolConst(a < b)
		case token.LEQ:
			return w.t.BoolConst(a <= b)
		case token.GTR:
			return w.t.BoolConst(a > b)
		case token.GEQ:
			return w.t.BoolConst(a >= b)
		}
	}
	switch op {
	case token.EQL:
		return w.equal(x, y, T)
	case token.NEQ:
		return w.t.Not(w.equal(x, y, T))
	case token.AND, token.LAND:
		return w.t.And(x.(*Bool), y.(*Bool))
	case token.OR, token.LOR:
		return w.t.Or(x.(*Bool), y.(*Bool))
	}
	unmodelled("binop %s %T %T", op, x, y)
	return nil
}

func (w *Worker) equal(x, y Value, T types.Type) *Bool {
	switch a := x.(type) {
	case *Bool:
		b := y.(*Bool)
		return w.t.Or(w.t.And(a, b), w.t.And(w.t.Not(a), w.t.Not(b)))
	case int64:
		if b, ok := y.(int64); ok {
			return w.t.BoolConst(a == b)
		}
		return w.t.EQ(w.t.Int(a), y.(*Node))
	case *Node:
		return w.t.EQ(a, w.toNode(y))
	case string:
		return w.t.BoolConst(a == y.(string))
	case *Cell:
		return w.t.BoolConst(a == y.(*Cell))
	case *MapObj:
		return w.t.BoolConst(a == y.(*MapObj))
	case *ChanObj:
		return w.t.BoolConst(a == y.(*ChanObj))
	case *Closure:
		b := y.(*Closure)
		return w.t.BoolConst(a == nil && b == nil)
	case SliceV:
		b := y.(SliceV)
		return w.t.BoolConst(a.a == nil && b.a == nil)
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			unmodelled("iface compare %T", y)
		}
		if a.t == nil || b.t == nil {
			return w.t.BoolConst(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return w.t.False
		}
		switch a.v.(type) {
		case SliceV, *MapObj, *Closure:
			w.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return w.equal(a.v, b.v, a.t)
	case AggVal:
		b := y.(AggVal)
		r := w.t.True
		st, isS := T.Underlying().(*types.Struct)
		for i := range a.f {
			var ft types.Type
			if isS {
				ft = st.Field(i).Type()
			} else {
				ft = T.Underlying().(*types.Array).Elem()
			}
			r = w.t.And(r, w.equal(a.f[i], b.f[i], ft))
		}
		return r
	}
	unmodelled("equal %T", x)
	return nil
}

func (w *Worker) intOp(op token.Token, T, TY types.Type, a, b int64) Value {
	_, signed := intKind(T)
	var r int64
	switch op {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO, token.REM:
		if b == 0 {
			w.rtPanic("integer divide by zero")
		}
		if signed {
			if op == token.QUO {
				if b == -1 {
					r = -a
				} else {
					r = a / b
				}
			} else if b != -1 {
				r = a % b
			}
		} else if op == token.QUO {
			r = int64(uint64(a) / uint64(b))
		} else {
			r = int64(uint64(a) % uint64(b))
		}
	case token.AND:
		r = a & b
	case token.OR:
		r = a | b
	case token.XOR:
		r = a ^ b
	case token.AND_NOT:
		r = a &^ b
	case token.SHL, token.SHR:
		_, sy := intKind(TY)
		if sy && b < 0 {
			w.rtPanic("negative shift amount")
		}
		ub := uint64(b)
		if op == token.SHL {
			if ub < 64 {
				r = a << ub
			}
		} else if signed {
			if ub > 63 {
				ub = 63
			}
			r = a >> ub
		} else if ub < 64 {
			r = int64(uint64(a) >> ub)
		}
	case token.EQL:
		return w.t.BoolConst(a == b)
	case token.NEQ:
		return w.t.BoolConst(a != b)
	case token.LSS:
		if !signed {
			return w.t.BoolConst(uint64(a) < uint64(b))
		}
		return w.t.BoolConst(a < b)
	case token.LEQ:
		if !signed {
			return w.t.BoolConst(uint64(a) <= uint64(b))
		}
		return w.t.BoolConst(a <= b)
	case token.GTR:
		if !signed {
			return w.t.BoolConst(uint64(a) > uint64(b))
		}
		return w.t.BoolConst(a > b)
	case token.GEQ:
		if !signed {
			return w.t.BoolConst(uint64(a) >= uint64(b))
		}
		return w.t.BoolConst(a >= b)
	default:
		unmodelled("int op %s", op)
	}
	return wrapC(r, T)
}

func (w *Worker) symIntOp(op token.Token, T, TY types.Type, x, y Value) Value {
	t := w.t
	a, b := w.toNode(x), w.toNode(y)
	switch op {
	case token.ADD:
		return w.wrap(t.Add(a, b), T)
	case token.SUB:
		return w.wrap(t.Sub(a, b), T)
	case token.MUL:
		return w.wrap(t.Mul(a, b), T)
	case token.EQL:
		return t.EQ(a, b)
	case token.NEQ:
		return t.Not(t.EQ(a, b))
	case token.LSS:
		return t.LT(a, b)
	case token.LEQ:
		return t.LE(a, b)
	case token.GTR:
		return t.LT(b, a)
	case token.GEQ:
		return t.LE(b, a)
	case token.QUO, token.REM:
		if !b.isConst() {
			if w.decide(t.EQ(b, t.Zero)) {
				w.rtPanic("integer divide by zero")
			}
			if w.decide(t.And(t.LE(t.Zero, a), t.LT(a, b))) {
				if op == token.QUO {
					return normInt(t.Zero)
				}
				return normInt(a)
			}
			if a.isConst() && a.rat.Num().CmpAbs(big.NewInt(1<<20)) > 0 && !w.decide(t.LT(b, t.Zero)) && !w.decide(t.LT(a, t.Zero)) {
				// a = q b + r
				w.freshN++
				q := t.Var(fmt.Sprintf("@quo%d", w.freshN), true, 0, 9.3e18)
				r := t.Sub(a, t.Mul(q, b))
				w.assume(t.LE(t.Zero, r))
				w.assume(t.LT(r, b))
				if op == token.QUO {
					return q
				}
				return normInt(r)
			}
			b = t.Int(w.concInt(b))
		}
		c := b.rat.Num().Int64()
		if c == 0 {
			w.rtPanic("integer divide by zero")
		}
		neg := c < 0
		ac := c
		if neg {
			ac = -c
		}
		var q *Node
		if a.lo >= 0 || !w.decide(t.LT(a, t.Zero)) {
			q = t.IDiv(a, ac)
		} else {
			q = t.Neg(t.IDiv(t.Neg(a), ac))
		}
		if neg {
			q = t.Neg(q)
		}
		if op == token.QUO {
			return w.wrap(q, T)
		}
		return normInt(t.Sub(a, t.Mul(q, b)))
	case token.SHL:
		k := w.concInt(b)
		if k >= 0 && k < 63 {
			return w.wrap(t.Mul(a, t.Int(1<<uint(k))), T)
		}
	case token.SHR:
		k := w.concInt(b)
		if k >= 0 && k < 63 {
			return normInt(t.IDiv(a, 1<<uint(k)))
		}
	}
	return w.intOp(op, T, TY, w.concInt(a), w.concInt(b))
}

func (w *Worker) floatOp(op token.Token, a, b *Node) Value {
	t := w.t
	switch op {
	case token.ADD:
		return t.Add(a, b)
	case token.SUB:
		return t.Sub(a, b)
	case token.MUL:
		return w.fmul(a, b)
	case token.QUO:
		return w.fdiv(a, b)
	case token.EQL:
		return t.EQ(a, b)
	case token.NEQ:
		return t.Not(t.EQ(a, b))
	case token.LSS:
		return t.LT(a, b)
	case token.LEQ:
		return t.LE(a, b)
	case token.GTR:
		return t.LT(b, a)
	case token.GEQ:
		return t.LE(b, a)
	}
	unmodelled("float op %s", op)
	return nil
}

// sign of a finite or infinite value: -1, 0, 1 (forks)
func (w *Worker) fsign(a *Node) int {
	switch a.k {
	case KPInf:
		return 1
	case KNInf:
		return -1
	}
	if w.decide(w.t.EQ(a, w.t.Zero)) {
		return 0
	}
	if w.decide(w.t.LT(w.t.Zero, a)) {
		return 1
	}
	return -1
}

func (w *Worker) inf(s int) *Node {
	if s > 0 {
		return w.t.PInf
	}
	return w.t.NInf
}

func (w *Worker) fmul(a, b *Node) *Node {
	if !a.special() && !b.special() {
		return w.t.Mul(a, b)
	}
	if a.k == KNaN || b.k == KNaN {
		return w.t.NaN
	}
	s := w.fsign(a) * w.fsign(b)
	if s == 0 {
		return w.t.NaN
	}
	return w.inf(s)
}

func (w *Worker) fdiv(a, b *Node) *Node {
	t := w.t
	if a.k == KNaN || b.k == KNaN {
		return t.NaN
	}
	if b.special() {
		if a.special() {
			return t.NaN
		}
		return t.Zero
	}
	if w.decide(t.EQ(b, t.Zero)) {
		s := w.fsign(a)
		if s == 0 {
			return t.NaN
		}
		return w.inf(s)
	}
	if a.special() {
		return w.inf(w.fsign(a) * w.fsign(b))
	}
	return t.Div(a, b)
}

func (w *Worker) convert(from, to types.Type, x Value) Value {
	ft, tt := from.Underlying(), to.Underlying()
	tb, tok := tt.(*types.Basic)
	fb, fok := ft.(*types.Basic)
	if tok && fok {
		switch {
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			if v, ok := x.(int64); ok {
				return wrapC(v, to)
			}
			return w.wrap(x.(*Node), to)
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0:
			if v, ok := x.(int64); ok {
				if _, s := intKind(from); !s && v < 0 {
					return w.t.Rat(new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(v))))
				}
				return w.t.Int(v)
			}
			return x
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				n := x.(*Node)
				if n.special() {
					return x
				}
				if n.isConst() {
					f, _ := n.rat.Float64()
					return w.snapFloat(float64(float32(f)))
				}
				return w.f32(n)
			}
			return x
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
			n := x.(*Node)
			if n.special() {
				unmodelled("float special to int")
			}
			r := w.t.TruncToInt(n)
			if r.lo < -9.2e18 || r.hi > 9.2e18 {
				if !w.decide(w.t.And(w.t.LE(w.t.Int(-9e18), r), w.t.LE(r, w.t.Int(9e18)))) {
					unmodelled("float to int out of range")
				}
			}
			return w.wrap(r, to)
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			return string(rune(x.(int64)))
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return x
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := x.(SliceV); ok {
			el := ft.(*types.Slice).Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				b := make([]byte, s.n)
				for i := range b {
					b[i] = byte(s.a.cells[s.off+i].v.(int64))
				}
				return string(b)
			}
			var r []rune
			for i := 0; i < s.n; i++ {
				r = append(r, rune(s.a.cells[s.off+i].v.(int64)))
			}
			return string(r)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if st, ok := tt.(*types.Slice); ok {
			s := x.(string)
			if st.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				a := w.newArr(st.Elem(), len(s))
				for i := 0; i < len(s); i++ {
					a.cells[i].v = int64(s[i])
				}
				return SliceV{a, 0, len(s), len(s)}
			}
			rs := []rune(s)
			a := w.newArr(st.Elem(), len(rs))
			for i, r := range rs {
				a.cells[i].v = int64(r)
			}
			return SliceV{a, 0, len(rs), len(rs)}
		}
	}
	if _, ok := tt.(*types.Pointer); ok {
		return x
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return x
	}
	unmodelled("convert %s to %s", from, to)
	return nil
}

// f32: narrowing of a symbolic float64: some value within half an ulp.
func (w *Worker) f32(n *Node) *Node {
	d := w.fresh("f32", -math.Ldexp(1, -24), math.Ldexp(1, -24))
	return w.t.Add(n, w.t.Mul(n, d))
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, x IfaceV) Value {
	w := fr.w
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && types.Implements(x.t, it) {
			ok = true
			v = x
		} else {
			v = IfaceV{}
		}
	} else {
		if x.t != nil && (x.t == in.AssertedType || types.Identical(x.t, in.AssertedType)) {
			ok = true
			v = x.v
		} else if in.CommaOk {
			v = w.zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, w.t.BoolConst(ok)}
	}
	if !ok {
		w.rtPanic("interface conversion: type assertion failed")
	}
	return v
}

func (w *Worker) mapSet(fr *frame, m *MapObj, k, v Value, elem types.Type) {
	w.wrote(m.birth, fr)
	if i, ok := w.find(m, k); ok {
		if w.log != nil {
			w.log.read(&m.hdr, fr)
			w.log.write(m.vals[i], fr)
			w.log.write(&m.hdr, fr)
		}
		storeCell(m.vals[i], v)
		return
	}
	if w.log != nil {
		w.log.write(&m.hdr, fr)
	}
	c := w.newCell(elem)
	storeCell(c, v)
	m.bind(k, len(m.keys))
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, c)
	m.live = append(m.live, true)
	m.n++
}

func (fr *frame) lookup(in *ssa.Lookup, x, k Value) Value {
	w := fr.w
	if s, ok := x.(string); ok {
		return int64(s[fr.index(k, len(s))])
	}
	m := x.(*MapObj)
	var v Value
	ok := false
	if m != nil {
		if w.log != nil {
			w.log.read(&m.hdr, fr)
		}
		if i, has := w.find(m, k); has {
			v, ok = loadCell(m.vals[i]), true
		}
	}
	if !ok {
		v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, w.t.BoolConst(ok)}
	}
	return v
}

func (fr *frame) next(in *ssa.Next, it *rangeIter) Value {
	w := fr.w
	if it.isS {
		if it.i >= len(it.str) {
			return Tuple{w.t.False, int64(0), int64(0)}
		}
		it.i++
		return Tuple{w.t.True, int64(it.pos[it.i-1]), int64(it.str[it.i-1])}
	}
	tup := in.Type().(*types.Tuple)
	if it.m != nil && it.rev {
		for it.i > 0 {
			it.i--
			if i := it.i; it.m.live[i] {
				return Tuple{w.t.True, it.m.keys[i], loadCell(it.m.vals[i])}
			}
		}
	} else if it.m != nil {
		for it.i < len(it.m.keys) {
			i := it.i
			it.i++
			if it.m.live[i] {
				return Tuple{w.t.True, it.m.keys[i], loadCell(it.m.vals[i])}
			}
		}
	}
	z := func(i int) Value {
		if b, ok := tup.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return w.zero(tup.At(i).Type())
	}
	return Tuple{w.t.False, z(1), z(2)}
}

func (fr *frame) builtin(b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	w := fr.w
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return int64(x.n)
		case string:
			return int64(len(x))
		case *MapObj:
			if x == nil {
				return int64(0)
			}
			if w.log != nil {
				w.log.read(&x.hdr, fr)
			}
			return int64(x.n)
		case AggVal:
			return int64(len(x.f))
		case *Cell:
			return int64(len(x.v.(*Agg).cells))
		case *ChanObj:
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return int64(x.cap)
		case *Cell:
			return int64(len(x.v.(*Agg).cells))
		}
	case "append":
		s := args[0].(SliceV)
		if len(args) == 1 {
			return s
		}
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			for i := 0; i < y.n; i++ {
				c := &y.a.cells[y.off+i]
				if w.log != nil {
					w.log.read(c, fr)
				}
				src = append(src, loadCell(c))
			}
		case string:
			for i := 0; i < len(y); i++ {
				src = append(src, int64(y[i]))
			}
		}
		if len(src) == 0 {
			return s
		}
		if s.n+len(src) <= s.cap {
			w.wrote(s.a.birth, fr)
			for i, v := range src {
				c := &s.a.cells[s.off+s.n+i]
				if w.log != nil {
					w.log.write(c, fr)
				}
				storeCell(c, v)
			}
			return SliceV{s.a, s.off, s.n + len(src), s.cap}
		}
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		nc := roundCap(growCap(s.cap, s.n+len(src)), int(w.P.sizes.Sizeof(el)))
		a := w.newArr(el, nc)
		for i := 0; i < s.n; i++ {
			c := &s.a.cells[s.off+i]
			if w.log != nil {
				w.log.read(c, fr)
			}
			storeCell(&a.cells[i], loadCell(c))
		}
		for i, v := range src {
			storeCell(&a.cells[s.n+i], v)
		}
		return SliceV{a, 0, s.n + len(src), nc}
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			for i := 0; i < y.n && i < d.n; i++ {
				c := &y.a.cells[y.off+i]
				if w.log != nil {
					w.log.read(c, fr)
				}
				src = append(src, loadCell(c))
			}
		case string:
			for i := 0; i < len(y) && i < d.n; i++ {
				src = append(src, int64(y[i]))
			}
		}
		if len(src) > 0 {
			w.wrote(d.a.birth, fr)
		}
		for i, v := range src {
			c := &d.a.cells[d.off+i]
			if w.log != nil {
				w.log.write(c, fr)
			}
			storeCell(c, v)
		}
		return int64(len(src))
	case "delete":
		m := args[0].(*MapObj)
		if m == nil {
			return nil
		}
		w.wrote(m.birth, fr)
		if w.log != nil {
			w.log.write(&m.hdr, fr)
		}
		if i, ok := w.find(m, args[1]); ok {
			m.unbind(m.keys[i])
			m.live[i] = false
			m.n--
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				w.wrote(x.birth, fr)
				x.m, x.nsym = map[Value]int{}, 0
				for i := range x.live {
					x.live[i] = false
				}
				x.n = 0
			}
		case SliceV:
			el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			if x.n > 0 {
				w.wrote(x.a.birth, fr)
			}
			for i := 0; i < x.n; i++ {
				c := &x.a.cells[x.off+i]
				if w.log != nil {
					w.log.write(c, fr)
				}
				storeCell(c, w.zero(el))
			}
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		// valid when called directly by a deferred function
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			return c.pv.v
		}
		return IfaceV{}
	case "min", "max":
		r := args[0]
		T := cc.Args[0].Type()
		for _, v := range args[1:] {
			r = w.minmax(b.Name() == "max", T, r, v)
		}
		return r
	case "close":
		args[0].(*ChanObj).closed = true
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			w.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	unmodelled("builtin %s", b.Name())
	return nil
}

func (w *Worker) minmax(max bool, T types.Type, a, b Value) Value {
	if s, ok := a.(string); ok {
		if (s < b.(string)) != max {
			return a
		}
		return b
	}
	if isFloat(T) {
		x, y := a.(*Node), b.(*Node)
		if x.k == KNaN || y.k == KNaN {
			return w.t.NaN
		}
	}
	c := w.binop(token.LSS, T, T, a, b).(*Bool)
	if w.decide(c) != max {
		return a
	}
	return b
}

func growCap(old, need int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		return need
	}
	if old < 256 {
		if dbl < 1 {
			return need
		}
		return dbl
	}
	for nc < need {
		nc += (nc + 3*256) / 4
	}
	return nc
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048}

// roundCap mimics the allocator's size classes (append's capacity).
func roundCap(n, size int) int {
	if size == 0 {
		return n
	}
	for _, c := range sizeClasses {
		if c >= n*size {
			return c / size
		}
	}
	return n
}
