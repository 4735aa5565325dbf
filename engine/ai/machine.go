package ai

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded, type-checked and SSA-built source tree.
type Program struct {
	Dir    string
	Prog   *ssa.Program
	Pkgs   []*ssa.Package
	Main   *ssa.Package
	Lex    *ssa.Package
	Fset   *token.FileSet
	Local  map[*ssa.Package]bool
	Root   string
	Syntax map[string][]*ast.File
	Info   map[string]*types.Info
}

// AbsPanic is a panic of the analysed program.
type AbsPanic struct {
	V    Value
	Site string
}

// Abort ends the current trace: the abstract domain cannot continue (Reason) or the trace is infeasible.
type Abort struct {
	Reason     string
	Infeasible bool
}

type choice struct {
	n, taken int
	label    string
}

type Event struct {
	Kind string
	Fn   *ssa.Function
	Args []Value
	Data interface{}
	Pos  token.Pos
}

// Machine is the abstract state of one trace.
type Machine struct {
	P          *Program
	prefix     []int
	Trace      []choice
	nextID     int
	syms       map[string]*Sym
	SymByKey   map[string]*Sym
	ints       map[*Sym]*intFact
	bools      map[string]bool
	globals    map[*ssa.Global]*Cell
	objs       map[*Sym]*Cell
	lists      map[*Sym]*Slice
	holes      map[string]*Sym
	side       map[*Cell]string
	Events     []Event
	Steps      int
	MaxSteps   int
	ExtraDepth int // deeper recursion for whole programs
	depth      int
	fresh      map[string]int

	Hooks      map[*ssa.Function]Hook
	ExtHooks   map[string]Hook // by full name of functions outside the tree
	InvokeHook func(m *Machine, call *ssa.CallCommon, recv Value, args []Value) (Value, bool)
	// FieldInit supplies initial values of lazily materialised fields of opaque objects.
	FieldInit func(m *Machine, owner *Sym, st types.Type, field string, ft types.Type) (Value, bool)
	// ListLens gives candidate lengths of an opaque list.
	ListLens     func(s *Sym) []int
	EvalStringer bool
	Covered      map[*ssa.Function]bool
	Edges        map[*ssa.BasicBlock]bool
	MapReverse   bool
	EagerGo      bool // goroutines run at once, channels are unbounded queues
	Extra        map[string]interface{}
	frozen       map[interface{}]string
	OnFrozen     func(name, where string)
	stack        []*ssa.Function
	sites        []token.Pos
}

type Hook func(m *Machine, fn *ssa.Function, args []Value) (Value, bool)

// Explore runs body over all partitions. It returns the number of traces. Traces that end in an Abort call onAbort.
func Explore(p *Program, max int, setup func(m *Machine), body func(m *Machine), onAbort func(m *Machine, a Abort)) (n int, exhausted bool) {
	var prefix []int
	cov := map[*ssa.Function]bool{}
	edges := map[*ssa.BasicBlock]bool{}
	spent := 0
	for {
		m := &Machine{P: p, prefix: prefix, syms: map[string]*Sym{}, ints: map[*Sym]*intFact{}, bools: map[string]bool{},
			globals: map[*ssa.Global]*Cell{}, objs: map[*Sym]*Cell{}, lists: map[*Sym]*Slice{}, holes: map[string]*Sym{},
			side: map[*Cell]string{}, Hooks: map[*ssa.Function]Hook{}, ExtHooks: map[string]Hook{}, MaxSteps: 2000000,
			fresh: map[string]int{}, Covered: cov, Edges: edges, Extra: map[string]interface{}{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(Abort); ok {
						if onAbort != nil && !a.Infeasible {
							onAbort(m, a)
						}
						return
					}
					panic(r)
				}
			}()
			if setup != nil {
				setup(m)
			}
			body(m)
		}()
		n++
		if m.Steps > m.MaxSteps {
			// reported; more of the same would only take time
			if spent++; spent >= 8 {
				return n, false
			}
		}
		// next prefix
		t := m.Trace
		i := len(t) - 1
		for i >= 0 && t[i].taken+1 >= t[i].n {
			i--
		}
		if i < 0 {
			return n, true
		}
		if n >= max {
			return n, false
		}
		prefix = prefix[:0:0]
		for j := 0; j < i; j++ {
			prefix = append(prefix, t[j].taken)
		}
		prefix = append(prefix, t[i].taken+1)
	}
}

// Choose partitions the trace n ways.
func (m *Machine) Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	i := len(m.Trace)
	v := 0
	if i < len(m.prefix) {
		v = m.prefix[i]
	}
	m.Trace = append(m.Trace, choice{n, v, label})
	return v
}

func (m *Machine) PathString() string {
	var r []string
	for _, c := range m.Trace {
		r = append(r, fmt.Sprintf("%s=%d", c.label, c.taken))
	}
	return strings.Join(r, "; ")
}

func (m *Machine) abort(f string, a ...interface{}) {
	panic(Abort{Reason: fmt.Sprintf(f, a...) + m.where()})
}
func (m *Machine) Infeasible() { panic(Abort{Infeasible: true, Reason: "infeasible"}) }

func (m *Machine) where() string {
	if len(m.stack) == 0 {
		return ""
	}
	return " in " + m.stack[len(m.stack)-1].String()
}

// Where describes the innermost /repo position.
func (m *Machine) Where() string {
	for i := len(m.sites) - 1; i >= 0; i-- {
		if m.sites[i].IsValid() {
			return m.P.Pos(m.sites[i])
		}
	}
	return ""
}

func (p *Program) Pos(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---------------------------------------------------------------------------------------------------------------

func (m *Machine) id() int { m.nextID++; return m.nextID }

func (m *Machine) Atom(name string, t types.Type) *Sym {
	if s, ok := m.syms[name]; ok {
		return s
	}
	s := &Sym{ID: m.id(), Key: name, Typ: t}
	m.syms[name] = s
	return s
}

// Fresh makes an atom with a unique name.
func (m *Machine) Fresh(name string, t types.Type) *Sym {
	m.fresh[name]++
	return m.Atom(fmt.Sprintf("%s'%d", name, m.fresh[name]), t)
}

func (m *Machine) Term(op string, t types.Type, args ...Value) *Sym {
	var ks []string
	for _, a := range args {
		ks = append(ks, keyOf(a))
	}
	k := op + "(" + strings.Join(ks, ",") + ")"
	if s, ok := m.syms[k]; ok {
		return s
	}
	s := &Sym{ID: m.id(), Key: k, Typ: t, Op: op, Args: args}
	m.syms[k] = s
	return s
}

// Hole renders an opaque value as a string template.
func (m *Machine) Hole(s *Sym) string {
	m.holes[s.Key] = s
	return holeL + s.Key + holeR
}

// HoleSym finds the symbol of a hole key.
func (m *Machine) HoleSym(key string) *Sym { return m.holes[key] }

// Opaque returns an opaque value of type t named name.
func (m *Machine) Opaque(name string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.Hole(m.Atom(name, t))
		}
		s := m.Atom(name, t)
		if u.Info()&types.IsBoolean != 0 {
			s.IsBool = true
		}
		return s
	case *types.Struct:
		return m.opaqueStruct(name, t, u, nil)
	case *types.Array:
		a := &Array{}
		for i := int64(0); i < u.Len(); i++ {
			i := i
			a.E = append(a.E, &Cell{ID: m.id(), lazy: func() Value { return m.Opaque(fmt.Sprintf("%s[%d]", name, i), u.Elem()) }})
		}
		return a
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, m.Opaque(fmt.Sprintf("%s#%d", name, i), u.At(i).Type()))
		}
		return tp
	}
	return m.Atom(name, t)
}

func (m *Machine) opaqueStruct(name string, t types.Type, u *types.Struct, owner *Sym) *Struct {
	st := &Struct{Typ: u, Named: t}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		c := &Cell{ID: m.id(), Name: name + "." + f.Name()}
		c.lazy = func() Value {
			if m.FieldInit != nil && owner != nil {
				if v, ok := m.FieldInit(m, owner, t, f.Name(), f.Type()); ok {
					return v
				}
			}
			return m.Opaque(name+"."+f.Name(), f.Type())
		}
		st.F = append(st.F, c)
	}
	return st
}

// Deref gives the cell a pointer value designates.
func (m *Machine) Deref(v Value) *Cell {
	switch v := v.(type) {
	case *Cell:
		return v
	case *Sym:
		if c, ok := m.objs[v]; ok {
			return c
		}
		pt, ok := v.Typ.Underlying().(*types.Pointer)
		if !ok {
			m.abort("deref of non-pointer %s", v.Key)
		}
		if m.IsNil(v) {
			m.nilDeref(v)
		}
		c := &Cell{ID: m.id(), Name: v.Key}
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			c.V = m.opaqueStruct(v.Key, pt.Elem(), st, v)
		} else {
			c.lazy = func() Value { return m.Opaque("*"+v.Key, pt.Elem()) }
		}
		m.objs[v] = c
		return c
	case Nil:
		m.nilDeref(v)
	}
	m.abort("deref of %s", Show(v))
	return nil
}

func (m *Machine) nilDeref(v Value) {
	panic(AbsPanic{V: &Iface{V: "nil dereference of " + Show(v)}, Site: m.Where()})
}

// IsNil decides (partitioning if unknown) whether v is nil.
func (m *Machine) IsNil(v Value) bool {
	switch v := v.(type) {
	case Nil:
		return true
	case *Sym:
		if v.NonNil {
			return false
		}
		if _, ok := m.objs[v]; ok {
			return false
		}
		return m.Decide("isnil(" + v.Key + ")")
	case nil:
		m.abort("nil test of undefined value")
	}
	return false
}

// Decide partitions on an opaque boolean fact. False is explored first.
func (m *Machine) Decide(key string) bool {
	if b, ok := m.bools[key]; ok {
		return b
	}
	b := m.Choose(key, 2) == 1
	m.bools[key] = b
	return b
}

// Assume records a fact without partitioning.
func (m *Machine) Assume(key string, v bool) { m.bools[key] = v }

// Known returns the value of a fact, if recorded.
func (m *Machine) Known(key string) (bool, bool) { b, ok := m.bools[key]; return b, ok }

func (m *Machine) fact(s *Sym) *intFact {
	f, ok := m.ints[s]
	if !ok {
		f = &intFact{lo: math.MinInt64, hi: math.MaxInt64, excl: map[int64]bool{}}
		if b, ok := s.Typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				f.lo, f.hi = 0, 255
			case types.Int16:
				f.lo, f.hi = math.MinInt16, math.MaxInt16
			case types.Int32:
				f.lo, f.hi = math.MinInt32, math.MaxInt32
			case types.Uint32:
				f.lo, f.hi = 0, math.MaxUint32
			case types.Uint, types.Uint64:
				f.lo = 0
			}
		}
		if s.Op == "len" {
			f.lo = 0
		}
		m.ints[s] = f
	}
	return f
}

// Bound sets the interval of an opaque integer.
func (m *Machine) Bound(s *Sym, lo, hi int64) { f := m.fact(s); f.lo, f.hi = lo, hi }

// Interval returns what is known.
func (m *Machine) Interval(s *Sym) (int64, int64) { f := m.fact(s); return f.lo, f.hi }

func (f *intFact) feasible(c int64) bool {
	if c < f.lo || c > f.hi || f.excl[c] {
		return false
	}
	for _, p := range f.preds {
		if p.f(c) != p.want {
			return false
		}
	}
	return true
}

// EqConst decides s == c.
func (m *Machine) EqConst(s *Sym, c int64) bool {
	f := m.fact(s)
	if !f.feasible(c) {
		return false
	}
	if f.lo == f.hi {
		return true
	}
	f.excl[c] = true
	only := f.empty()
	delete(f.excl, c)
	if only {
		f.lo, f.hi = c, c
		return true
	}
	if m.Choose(fmt.Sprintf("%s==%d", s.Key, c), 2) == 1 {
		f.lo, f.hi = c, c
		return true
	}
	f.excl[c] = true
	for f.excl[f.lo] && f.lo < f.hi {
		f.lo++
	}
	for f.excl[f.hi] && f.lo < f.hi {
		f.hi--
	}
	return false
}

// LtConst decides s < c.
func (m *Machine) LtConst(s *Sym, c int64) bool {
	f := m.fact(s)
	if f.hi < c {
		return true
	}
	if f.lo >= c {
		return false
	}
	lo, hi := f.lo, f.hi
	f.hi = c - 1
	noLt := f.empty()
	f.lo, f.hi = c, hi
	noGe := f.empty()
	f.lo = lo
	if noLt {
		f.lo = c
		return false
	}
	if noGe {
		f.hi = c - 1
		return true
	}
	if m.Choose(fmt.Sprintf("%s<%d", s.Key, c), 2) == 1 {
		f.hi = c - 1
		return true
	}
	f.lo = c
	return false
}

// Pred decides an opaque predicate over an integer, remembering it for consistency with later equalities.
func (m *Machine) Pred(name string, s *Sym, p func(int64) bool) bool {
	f := m.fact(s)
	if f.lo == f.hi {
		return p(f.lo)
	}
	k := name + "(" + s.Key + ")"
	if b, ok := m.bools[k]; ok {
		return b
	}
	n := len(f.preds)
	f.preds = append(f.preds[:n:n], pred{p, true})
	noT := f.empty()
	f.preds = append(f.preds[:n:n], pred{p, false})
	noF := f.empty()
	f.preds = f.preds[:n:n]
	var b bool
	switch {
	case noT:
		m.bools[k] = false
	case noF:
		b = true
		m.bools[k] = true
	default:
		b = m.Decide(k)
	}
	f.preds = append(f.preds, pred{p, b})
	return b
}

// empty reports that no value of a character's range satisfies the facts (only for ranges of that size).
func (f *intFact) empty() bool {
	if f.lo > f.hi {
		return true
	}
	if len(f.preds) == 0 && f.hi-f.lo > int64(len(f.excl)) || f.lo < 0 || f.hi > 0x10FFFF {
		return false
	}
	for c := f.lo; c <= f.hi; c++ {
		if f.feasible(c) {
			return false
		}
	}
	return true
}

// Truth decides a boolean value.
func (m *Machine) Truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Sym:
		switch v.Op {
		case "!":
			return !m.Truth(v.Args[0])
		case "==":
			if b, ok := m.decideEq(v.Args[0], v.Args[1]); ok {
				return b
			}
		case "<":
			if b, ok := m.decideLt(v.Args[0], v.Args[1]); ok {
				return b
			}
		}
		return m.Decide(v.Key)
	}
	m.abort("branch on %s", Show(v))
	return false
}

func (m *Machine) decideEq(a, b Value) (bool, bool) {
	if c, ok := b.(int64); ok {
		if s, ok := a.(*Sym); ok {
			return m.EqConst(s, c), true
		}
	}
	if c, ok := a.(int64); ok {
		if s, ok := b.(*Sym); ok {
			return m.EqConst(s, c), true
		}
	}
	return false, false
}

func (m *Machine) decideLt(a, b Value) (bool, bool) {
	if c, ok := b.(int64); ok {
		if s, ok := a.(*Sym); ok {
			return m.LtConst(s, c), true
		}
	}
	if c, ok := a.(int64); ok { // c < s  <=>  !(s < c+1)
		if s, ok := b.(*Sym); ok && c < math.MaxInt64 {
			return !m.LtConst(s, c+1), true
		}
	}
	return false, false
}

// ---------------------------------------------------------------------------------------------------------------

func (m *Machine) Zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
		return Nil{}
	case *types.Struct:
		st := &Struct{Typ: u, Named: t}
		for i := 0; i < u.NumFields(); i++ {
			st.F = append(st.F, &Cell{ID: m.id(), V: m.Zero(u.Field(i).Type()), Name: u.Field(i).Name()})
		}
		return st
	case *types.Array:
		a := &Array{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, &Cell{ID: m.id(), V: m.Zero(u.Elem())})
		}
		return a
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, m.Zero(u.At(i).Type()))
		}
		return tp
	}
	return Nil{}
}

// NewObj allocates a zeroed object of type t.
func (m *Machine) NewObj(t types.Type, name string) *Cell {
	return &Cell{ID: m.id(), V: m.Zero(t), Name: name}
}

func (m *Machine) copyVal(v Value) Value {
	switch v := v.(type) {
	case *Struct:
		n := &Struct{Typ: v.Typ, Named: v.Named}
		for _, c := range v.F {
			n.F = append(n.F, &Cell{ID: m.id(), Name: c.Name, V: m.copyVal(c.Get())})
		}
		return n
	case *Array:
		n := &Array{}
		for _, c := range v.E {
			n.E = append(n.E, &Cell{ID: m.id(), V: m.copyVal(c.Get())})
		}
		return n
	}
	return v
}

// Field returns the cell of a named field of the object p points to.
func (m *Machine) Field(p Value, name string) *Cell {
	c := m.Deref(p)
	st, ok := c.Get().(*Struct)
	if !ok {
		m.abort("field %s of non-struct %s", name, Show(c.V))
	}
	for i := 0; i < st.Typ.NumFields(); i++ {
		if st.Typ.Field(i).Name() == name {
			return st.F[i]
		}
	}
	panic(Abort{Reason: fmt.Sprintf("anchor: no field %s in %v", name, st.Named)})
}

func (m *Machine) Get(p Value, name string) Value { return m.Field(p, name).Get() }
func (m *Machine) Set(p Value, name string, v Value) {
	m.Field(p, name).Set(v)
}

// HasField reports whether an object has a field.
func (m *Machine) HasField(p Value, name string) bool {
	st, ok := m.Deref(p).Get().(*Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.Typ.NumFields(); i++ {
		if st.Typ.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (m *Machine) MkSlice(vs ...Value) *Slice {
	a := &Array{}
	for _, v := range vs {
		a.E = append(a.E, &Cell{ID: m.id(), V: v})
	}
	return &Slice{Arr: a, Len: len(vs), Cap: len(vs)}
}

// AsSlice materialises an opaque list.
func (m *Machine) AsSlice(v Value) *Slice {
	switch v := v.(type) {
	case *Slice:
		return v
	case Nil:
		return &Slice{Arr: &Array{}}
	case *Sym:
		if s, ok := m.lists[v]; ok {
			return s
		}
		st, ok := v.Typ.Underlying().(*types.Slice)
		if !ok {
			m.abort("not a list: %s (%v)", v.Key, v.Typ)
		}
		lens := []int{0, 1, 2}
		if m.ListLens != nil {
			if l := m.ListLens(v); l != nil {
				lens = l
			}
		}
		n := lens[m.Choose("len("+v.Key+")", len(lens))]
		a := &Array{}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%s[%d]", v.Key, i)
			a.E = append(a.E, &Cell{ID: m.id(), Name: name, lazy: func() Value {
				x := m.Opaque(name, st.Elem())
				if s, ok := x.(*Sym); ok {
					s.NonNil = true
				}
				return x
			}})
		}
		s := &Slice{Arr: a, Len: n, Cap: n, Origin: v}
		m.lists[v] = s
		return s
	}
	m.abort("not a list: %s", Show(v))
	return nil
}

// Global returns the cell of a package variable.
func (m *Machine) Global(g *ssa.Global) *Cell {
	c, ok := m.globals[g]
	if !ok {
		et := g.Type().(*types.Pointer).Elem()
		c = &Cell{ID: m.id(), Name: g.Name()}
		if m.P.Local[g.Pkg] {
			c.V = m.Zero(et)
		} else {
			c.lazy = func() Value { return m.Opaque(g.Pkg.Pkg.Name()+"."+g.Name(), et) }
		}
		m.globals[g] = c
	}
	return c
}

// InitGlobals propagates package initialisers.
func (m *Machine) InitGlobals() {
	for _, p := range []*ssa.Package{m.P.Lex, m.P.Main} {
		for _, mem := range sortedMembers(p) {
			if g, ok := mem.(*ssa.Global); ok {
				m.Global(g)
			}
		}
	}
	// console package variables and others are initialised by the import chain
	if f := m.P.Main.Func("init"); f != nil {
		m.Call(f, nil)
	}
	m.Events = nil
	m.Steps = 0
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var r []ssa.Member
	for _, k := range sortedKeys(p.Members) {
		r = append(r, p.Members[k])
	}
	return r
}

func constVal(c *ssa.Const) (Value, bool) {
	t := c.Type().Underlying()
	if c.Value == nil {
		return nil, false
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value), true
	case constant.String:
		return constant.StringVal(c.Value), true
	case constant.Int:
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return f, true
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return i, true
		}
		u, _ := constant.Uint64Val(c.Value)
		return int64(u), true
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return f, true
	}
	return nil, false
}
