package main

// Run-time values of the symbolic executor.
//
//	integers   int64 (concrete, bit pattern for unsigned) or *Node (symbolic)
//	floats     *Node
//	bools      *Bool
//	strings    string
//	pointers   *Cell (nil pointer: (*Cell)(nil))
//	structs    AggVal when in a register, *Agg inside a Cell
//	slices     SliceV
//	interfaces IfaceV (t == nil: nil interface)
//	functions  *Closure (nil func: (*Closure)(nil))
//	maps       *MapObj

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Cell struct {
	v     Value
	owner *Agg
}

type Agg struct {
	cells []Cell
	birth int64
}

type AggVal struct{ f []Value }

type SliceV struct {
	a           *Agg
	off, n, cap int
}

type IfaceV struct {
	t types.Type
	v Value
}

type Closure struct {
	fn *ssa.Function
	fv []Value
	// bound builtin
	bi *ssa.Builtin
}

type MapObj struct {
	m     map[Value]int
	nsym  int // live keys that are not constants
	keys  []Value
	vals  []*Cell
	live  []bool
	n     int
	birth int64
	hdr   Cell // stands for the map structure in access logs
}

type Tuple []Value

type rangeIter struct {
	m   *MapObj
	rev bool // from the last key to the first
	i   int
	str []rune
	pos []int
	isS bool
}

type strKey string

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
}

/* control-flow panics of the executor */

type targetPanic struct {
	v  Value // IfaceV
	rt string
}

type pathEnd struct {
	kind string // assume, infeasible, hang, unmodelled, budget, exit
	msg  string
}

func unmodelled(f string, a ...any) { panic(pathEnd{"unmodelled", fmt.Sprintf(f, a...)}) }

func mapKey(v Value) Value {
	switch x := v.(type) {
	case string, int64, *Bool, *Cell, *MapObj, *ChanObj:
		return v
	case *Node:
		if x.isConst() {
			return v
		}
		unmodelled("symbolic map key")
	case IfaceV:
		if x.t == nil {
			return strKey("nil")
		}
		return strKey("i:" + x.t.String() + ":" + fmt.Sprint(mapKey(x.v)))
	case AggVal:
		s := "a:"
		for _, e := range x.f {
			s += fmt.Sprintf("%T%v|", e, mapKey(e))
		}
		return strKey(s)
	}
	unmodelled("map key %T", v)
	return nil
}

func copyVal(v Value) Value { return v }

// load copies a storage location into a register value.
func loadCell(c *Cell) Value {
	if a, ok := c.v.(*Agg); ok {
		f := make([]Value, len(a.cells))
		for i := range a.cells {
			f[i] = loadCell(&a.cells[i])
		}
		return AggVal{f}
	}
	return c.v
}

func storeCell(c *Cell, v Value) {
	if a, ok := c.v.(*Agg); ok {
		av := v.(AggVal)
		for i := range a.cells {
			storeCell(&a.cells[i], av.f[i])
		}
		return
	}
	c.v = v
}
