package main

import (
	"fmt"
	"strings"
)

// showPoly prints a normal form for debugging.
func (t *TermTab) showPoly(p *Poly) string { return showPolyN(p, 3) }

func showPolyN(p *Poly, depth int) string {
	if p == nil {
		return "nil"
	}
	if depth == 0 {
		return fmt.Sprintf("P%d[%d]", p.id, len(p.ms))
	}
	var b []string
	for _, m := range p.ms {
		s := m.c.RatString()
		for _, f := range m.m.f {
			n := f.a.name
			if f.a.node != nil && n == "" {
				n = fmt.Sprintf("node%d", f.a.node.id)
			}
			n = fmt.Sprintf("k%d.%s", f.a.kind, n)
			if f.a.p != nil {
				n += "(" + showPolyN(f.a.p, depth-1) + ")"
			}
			if f.e != 1 {
				n += fmt.Sprintf("^%d", f.e)
			}
			s += "*" + n
		}
		b = append(b, s)
	}
	return strings.Join(b, " + ")
}
