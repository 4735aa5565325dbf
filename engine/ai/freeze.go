package ai

import "golang.org/x/tools/go/ssa"

// Freeze marks everything reachable from the package variables; a later change of it is reported to OnFrozen.
func (m *Machine) Freeze() {
	m.frozen = map[interface{}]string{}
	for g, c := range m.globals {
		if m.P.Local[g.Pkg] {
			m.freeze(c, g.Pkg.Pkg.Name()+"."+g.Name())
		}
	}
}

// Frozen is the number of shared places.
func (m *Machine) Frozen() int { return len(m.frozen) }

func (m *Machine) freeze(v Value, name string) {
	switch v := v.(type) {
	case *Cell:
		if _, ok := m.frozen[v]; ok || v.lazy != nil {
			return
		}
		m.frozen[v] = name
		m.freeze(v.V, name)
	case *Struct:
		for i, c := range v.F {
			n := name
			if v.Typ != nil {
				n += "." + v.Typ.Field(i).Name()
			}
			m.freeze(c, n)
		}
	case *Array:
		for _, c := range v.E {
			m.freeze(c, name+"[]")
		}
	case *Slice:
		m.freeze(v.Arr, name)
	case *Map:
		if _, ok := m.frozen[v]; ok {
			return
		}
		m.frozen[v] = name
		for i := range v.Keys {
			m.freeze(v.Keys[i], name)
			m.freeze(v.Vals[i], name)
		}
	case *Iface:
		m.freeze(v.V, name)
	case *Closure:
		for _, b := range v.Bind {
			m.freeze(b, name)
		}
	case Tuple:
		for _, b := range v {
			m.freeze(b, name)
		}
	}
}

func sameScalar(a, b Value) bool {
	switch a := a.(type) {
	case int64:
		b, ok := b.(int64)
		return ok && a == b
	case string:
		b, ok := b.(string)
		return ok && a == b
	case bool:
		b, ok := b.(bool)
		return ok && a == b
	case Nil:
		_, ok := b.(Nil)
		return ok
	case *Cell:
		b, ok := b.(*Cell)
		return ok && a == b
	case *Map:
		b, ok := b.(*Map)
		return ok && a == b
	case *ssa.Function:
		b, ok := b.(*ssa.Function)
		return ok && a == b
	case *Slice:
		b, ok := b.(*Slice)
		return ok && a.Arr == b.Arr && a.Off == b.Off && a.Len == b.Len && a.Cap == b.Cap
	case *Iface:
		b, ok := b.(*Iface)
		return ok && sameScalar(a.V, b.V)
	case *Struct:
		b, ok := b.(*Struct)
		if !ok || len(a.F) != len(b.F) {
			return false
		}
		for i := range a.F {
			if !sameScalar(a.F[i].Get(), b.F[i].Get()) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *Machine) store(c *Cell, v Value) {
	if m.frozen != nil {
		if n, ok := m.frozen[c]; ok && m.OnFrozen != nil && !sameScalar(c.Get(), v) {
			m.OnFrozen(n, m.Where())
		}
	}
	c.Set(v)
}

func (m *Machine) frozenMap(mp *Map) {
	if m.frozen != nil && m.OnFrozen != nil {
		if n, ok := m.frozen[mp]; ok {
			m.OnFrozen(n, m.Where())
		}
	}
}
