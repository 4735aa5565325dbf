// Package asmx is an abstract machine for the assembly text the compiler emits. Words are polynomials modulo 2^64
// over named atoms; nothing is executed and no atom ever gets a value.
package asmx

import (
	"fmt"
	"sort"
	"strings"
)

// Poly is a polynomial modulo 2^64: monomial (sorted atoms joined by '*', "" for the constant) -> coefficient.
type Poly struct{ t map[string]uint64 }

func Const(c int64) Poly {
	if c == 0 {
		return Poly{map[string]uint64{}}
	}
	return Poly{map[string]uint64{"": uint64(c)}}
}

func Atom(n string) Poly { return Poly{map[string]uint64{n: 1}} }

func (p Poly) clone() Poly {
	q := Poly{make(map[string]uint64, len(p.t))}
	for k, v := range p.t {
		q.t[k] = v
	}
	return q
}

func (p Poly) Add(o Poly) Poly {
	q := p.clone()
	for k, v := range o.t {
		q.t[k] += v
		if q.t[k] == 0 {
			delete(q.t, k)
		}
	}
	return q
}

func (p Poly) Scale(c uint64) Poly {
	q := Poly{map[string]uint64{}}
	for k, v := range p.t {
		if v*c != 0 {
			q.t[k] = v * c
		}
	}
	return q
}

func (p Poly) Sub(o Poly) Poly { return p.Add(o.Scale(^uint64(0))) }
func (p Poly) Not() Poly       { return Const(-1).Sub(p) }

func (p Poly) IsConst() (int64, bool) {
	switch len(p.t) {
	case 0:
		return 0, true
	case 1:
		if v, ok := p.t[""]; ok {
			return int64(v), true
		}
	}
	return 0, false
}

func (p Poly) ConstPart() int64 { return int64(p.t[""]) }

// SingleAtom reports whether p is exactly one atom.
func (p Poly) SingleAtom() (string, bool) {
	if len(p.t) == 1 {
		for k, v := range p.t {
			if k != "" && v == 1 && !strings.Contains(k, "*") {
				return k, true
			}
		}
	}
	return "", false
}

func (p Poly) Coef(mono string) uint64 { return p.t[mono] }

func (p Poly) Monos() []string {
	var ks []string
	for k := range p.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p Poly) Key() string {
	ks := p.Monos()
	if len(ks) == 0 {
		return "0"
	}
	var b strings.Builder
	for i, k := range ks {
		if i > 0 {
			b.WriteString("+")
		}
		if k == "" {
			fmt.Fprintf(&b, "%d", int64(p.t[k]))
		} else if p.t[k] == 1 {
			b.WriteString(k)
		} else {
			fmt.Fprintf(&b, "%d·%s", int64(p.t[k]), k)
		}
	}
	return b.String()
}
func (p Poly) String() string { return p.Key() }

func (p Poly) Eq(o Poly) bool { return p.Key() == o.Key() }

// Divisible returns p/2^k when every coefficient is divisible.
func (p Poly) divPow2(k uint) (Poly, bool) {
	q := Poly{map[string]uint64{}}
	for m, v := range p.t {
		if v&(1<<k-1) != 0 {
			return q, false
		}
		// arithmetic division keeps the sign of small negative coefficients
		q.t[m] = uint64(int64(v) >> k)
	}
	return q, true
}
