// Package ai is a trace-partitioned abstract interpreter over Go SSA.
//
// Abstract domain: constants, allocation-site cells, intervals with exclusions for unknown integers,
// string templates with holes, and opaque atoms (top with identity). No concrete program input is used and no
// solver is involved: a branch whose condition is not decided by the domain takes both successors.
package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: bool, int64, float64, string (possibly with holes), Nil, *Sym, *Cell (pointer), *Struct, *Array,
// *Slice, *Map, *Iface, *Closure, *ssa.Function, *ssa.Builtin, Tuple, *Iter, *Chan, *RuneStr
type Value interface{}

type Nil struct{}

// Sym is an opaque value (an atom or a term over atoms).
type Sym struct {
	ID     int
	Key    string
	Typ    types.Type
	Op     string // "" for atoms
	Args   []Value
	NonNil bool
	IsBool bool
}

func (s *Sym) String() string { return s.Key }

type Cell struct {
	ID   int
	V    Value
	Name string
	Site ssa.Value
	lazy func() Value
	Tag  string // free for checks
}

func (c *Cell) String() string { return fmt.Sprintf("&%s#%d", c.Name, c.ID) }

func (c *Cell) Get() Value {
	if c.lazy != nil {
		f := c.lazy
		c.lazy = nil
		c.V = f()
	}
	return c.V
}
func (c *Cell) Set(v Value) { c.lazy = nil; c.V = v }

type Struct struct {
	F   []*Cell
	Typ *types.Struct
	// Named type, if known
	Named types.Type
}
type Array struct{ E []*Cell }
type Slice struct {
	Arr           *Array
	Off, Len, Cap int
	Origin        *Sym // opaque list this slice was materialised from, if any
}

func (s *Slice) At(i int) *Cell { return s.Arr.E[s.Off+i] }
func (s *Slice) Values() []Value {
	var r []Value
	for i := 0; i < s.Len; i++ {
		r = append(r, s.At(i).Get())
	}
	return r
}

type Map struct {
	ID   int
	Keys []Value
	Vals []Value
}
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	Fn   *ssa.Function
	Bind []Value
}
type Tuple []Value
type Iter struct {
	m    *Map
	keys []Value
	s    string
	r    *RuneStr
	i    int
}
type Chan struct {
	ID     int
	Sent   []Value
	Closed bool
}

const holeL, holeR = "\x01", "\x02"

func HasHole(s string) bool { return strings.Contains(s, holeL) }

// Holes returns the hole keys of a string template.
func Holes(s string) []string {
	var r []string
	for {
		i := strings.Index(s, holeL)
		if i < 0 {
			return r
		}
		j := strings.Index(s[i:], holeR)
		r = append(r, s[i+1:i+j])
		s = s[i+j+1:]
	}
}

// Show renders a value for reports.
func Show(v Value) string { return show(v, 0) }

func show(v Value, d int) string {
	switch v := v.(type) {
	case nil:
		return "<undef>"
	case Nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", strings.NewReplacer(holeL, "⟦", holeR, "⟧").Replace(v))
	case *Sym:
		return v.Key
	case *Cell:
		if d > 2 {
			return v.String()
		}
		return v.String()
	case *Struct:
		if d > 1 {
			return "{..}"
		}
		var fs []string
		for i, f := range v.F {
			fs = append(fs, v.Typ.Field(i).Name()+":"+show(f.V, d+1))
		}
		return "{" + strings.Join(fs, " ") + "}"
	case *Slice:
		var fs []string
		for _, x := range v.Values() {
			fs = append(fs, show(x, d+1))
		}
		return "[" + strings.Join(fs, ", ") + "]"
	case *Iface:
		return "iface(" + show(v.V, d+1) + ")"
	case *ssa.Function:
		return v.Name()
	case *Closure:
		return v.Fn.Name()
	case Tuple:
		var fs []string
		for _, x := range v {
			fs = append(fs, show(x, d+1))
		}
		return "(" + strings.Join(fs, ", ") + ")"
	case *Map:
		return fmt.Sprintf("map#%d[%d]", v.ID, len(v.Keys))
	}
	return fmt.Sprint(v)
}

func keyOf(v Value) string {
	switch v := v.(type) {
	case nil:
		return "undef"
	case *Sym:
		return v.Key
	case string:
		return strings.NewReplacer(holeL, "⟦", holeR, "⟧").Replace(fmt.Sprintf("\"%s\"", v))
	case *Cell:
		return fmt.Sprintf("&%d", v.ID)
	case *Map:
		return fmt.Sprintf("map%d", v.ID)
	case *Slice:
		var p []string
		for _, x := range v.Values() {
			p = append(p, keyOf(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	case *Iface:
		return keyOf(v.V)
	case *Struct:
		var p []string
		for _, x := range v.F {
			p = append(p, keyOf(x.Get()))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *Closure:
		return v.Fn.String()
	case *ssa.Function:
		return v.String()
	case *RuneStr:
		return "runes:" + v.key()
	}
	return fmt.Sprint(v)
}

type intFact struct {
	lo, hi int64
	excl   map[int64]bool
	preds  []pred
}
type pred struct {
	f    func(int64) bool
	want bool
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
