package ai

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// AChar is one abstract character of a program text: an unknown (or known) rune and its encoded width.
type AChar struct {
	R Value // int64 or *Sym of rune type
	W int
}

// RuneStr is a program text as a sequence of abstract characters.
type RuneStr struct{ C []AChar }

// Rune is a known character.
func Rune(r rune) AChar { return AChar{int64(r), utf8.RuneLen(r)} }

// BadByte is a byte that is no part of an encoded character.
func BadByte() AChar { return AChar{int64(utf8.RuneError), 1} }

// RunesOf converts a known text.
func RunesOf(s string) *RuneStr {
	rs := &RuneStr{}
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		rs.C = append(rs.C, AChar{int64(r), w})
		i += w
	}
	return rs
}

// AnyChar is an unknown character of the given encoded width (1..4).
func (m *Machine) AnyChar(name string, w int) AChar {
	s := m.Atom(name, types.Typ[types.Int32])
	switch w {
	case 1:
		m.Bound(s, 0, 0x7F)
	case 2:
		m.Bound(s, 0x80, 0x7FF)
	case 3:
		m.Bound(s, 0x800, 0xFFFF)
		f := m.fact(s)
		f.preds = append(f.preds, pred{func(i int64) bool { return i >= 0xD800 && i <= 0xDFFF }, false})
	default:
		m.Bound(s, 0x10000, 0x10FFFF)
	}
	return AChar{s, w}
}

func (s *RuneStr) Len() int {
	n := 0
	for _, c := range s.C {
		n += c.W
	}
	return n
}

func (s *RuneStr) key() string {
	var sb strings.Builder
	for _, c := range s.C {
		if r, ok := c.R.(int64); ok {
			sb.WriteRune(rune(r))
		} else {
			sb.WriteString("‹" + c.R.(*Sym).Key + "›")
		}
	}
	return sb.String()
}
func (s *RuneStr) String() string { return s.key() }

// at returns the index of the character starting at a byte offset, or -1.
func (s *RuneStr) at(off int) int {
	n := 0
	for i, c := range s.C {
		if n == off {
			return i
		}
		n += c.W
	}
	if n == off {
		return len(s.C)
	}
	return -1
}

func (s *RuneStr) sub(m *Machine, lo, hi int) *RuneStr {
	if lo < 0 || hi < lo || hi > s.Len() {
		panic(AbsPanic{V: &Iface{V: fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, s.Len())}, Site: m.Where()})
	}
	a, b := s.at(lo), s.at(hi)
	if a < 0 || b < 0 {
		// part of a character: undecodable bytes
		r := &RuneStr{}
		n := 0
		for _, c := range s.C {
			switch {
			case n >= lo && n+c.W <= hi:
				r.C = append(r.C, c)
			default:
				for k := n; k < n+c.W; k++ {
					if k >= lo && k < hi {
						r.C = append(r.C, BadByte())
					}
				}
			}
			n += c.W
		}
		return r
	}
	return &RuneStr{C: s.C[a:b:b]}
}

func (m *Machine) runeStrIndex(s *RuneStr, i Value) Value {
	k, ok := i.(int64)
	if !ok {
		m.abort("index of a text by %s", Show(i))
	}
	if k < 0 || int(k) >= s.Len() {
		panic(AbsPanic{V: &Iface{V: fmt.Sprintf("index out of range [%d] with length %d", k, s.Len())}, Site: m.Where()})
	}
	n := 0
	for ci, c := range s.C {
		if int(k) < n+c.W {
			if c.W == 1 && !(c.R == Value(int64(utf8.RuneError))) {
				return c.R
			}
			if r, ok := c.R.(int64); ok && c.W > 1 {
				return int64(string(rune(r))[int(k)-n])
			}
			b := m.Atom(fmt.Sprintf("byte(%s,%d,%d)", s.key(), ci, int(k)-n), types.Typ[types.Uint8])
			m.Bound(b, 0x80, 0xFF)
			return b
		}
		n += c.W
	}
	return nil
}

func (m *Machine) runeStrSlice(s *RuneStr, in *ssa.Slice, fr *frame) Value {
	b := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		i, ok := fr.get(v).(int64)
		if !ok {
			m.abort("slice of a text at %s", Show(fr.get(v)))
		}
		return int(i)
	}
	return s.sub(m, b(in.Low, 0), b(in.High, s.Len()))
}

func (m *Machine) runeStrLen(s *RuneStr) Value { return int64(s.Len()) }

// CharIs decides whether a character is the given one.
func (m *Machine) CharIs(c AChar, r rune) bool {
	switch x := c.R.(type) {
	case int64:
		if c.W == 1 && x == utf8.RuneError {
			return false
		}
		return x == int64(r)
	case *Sym:
		return utf8.RuneLen(r) == c.W && m.EqConst(x, int64(r))
	}
	return false
}

// CharPred decides a predicate over a character.
func (m *Machine) CharPred(name string, c AChar, p func(rune) bool) bool {
	switch x := c.R.(type) {
	case int64:
		return p(rune(x))
	case *Sym:
		return m.Pred(name, x, func(i int64) bool { return p(rune(i)) })
	}
	return false
}

func (m *Machine) runeStrEq(a, b *RuneStr) bool {
	if a.Len() != b.Len() || len(a.C) != len(b.C) {
		return false
	}
	for i := range a.C {
		if a.C[i].W != b.C[i].W {
			return false
		}
	}
	for i := range a.C {
		if !m.Truth(m.equal(a.C[i].R, b.C[i].R)) {
			return false
		}
	}
	return true
}

func toRunes(v Value) *RuneStr {
	switch v := v.(type) {
	case *RuneStr:
		return v
	case string:
		if !HasHole(v) {
			return RunesOf(v)
		}
	}
	return nil
}

// hasPrefix decides whether the text at character i continues with p.
func (m *Machine) hasPrefix(s *RuneStr, i int, p *RuneStr) bool {
	if i+len(p.C) > len(s.C) {
		return false
	}
	return m.runeStrEq(&RuneStr{s.C[i : i+len(p.C)]}, p)
}

func (s *RuneStr) off(i int) int64 {
	n := 0
	for _, c := range s.C[:i] {
		n += c.W
	}
	return int64(n)
}

// runeExtern models the text functions of the standard library over abstract texts.
func (m *Machine) runeExtern(name string, args []Value) (Value, bool) {
	if x, ok := firstStr(args); ok && name == "unicode/utf8.DecodeRuneInString" {
		r, w := utf8.DecodeRuneInString(x)
		return Tuple{int64(r), int64(w)}, true
	}
	any := false
	for _, a := range args {
		switch a := a.(type) {
		case string:
			any = any || strings.HasPrefix(name, "unicode/utf8.") && !HasHole(a)
		case *RuneStr:
			any = true
		case *Sym:
			if b, ok := a.Typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8) {
				any = true
			}
		}
	}
	if !any {
		return nil, false
	}
	var s, t *RuneStr
	if len(args) > 0 {
		s = toRunes(args[0])
	}
	if len(args) > 1 {
		t = toRunes(args[1])
	}
	charIn := func(set *RuneStr, c AChar) bool {
		for _, x := range set.C {
			if c.W == 0 || x.W == c.W {
				if m.Truth(m.equal(x.R, c.R)) {
					return true
				}
			}
		}
		return false
	}
	switch name {
	case "unicode/utf8.DecodeRuneInString":
		if s != nil {
			if len(s.C) == 0 {
				return Tuple{int64(utf8.RuneError), int64(0)}, true
			}
			return Tuple{s.C[0].R, int64(s.C[0].W)}, true
		}
	case "unicode/utf8.DecodeLastRuneInString":
		if s != nil {
			if len(s.C) == 0 {
				return Tuple{int64(utf8.RuneError), int64(0)}, true
			}
			l := s.C[len(s.C)-1]
			return Tuple{l.R, int64(l.W)}, true
		}
	case "unicode/utf8.RuneCountInString":
		if s != nil {
			return int64(len(s.C)), true
		}
	case "unicode/utf8.ValidString":
		if s != nil {
			for _, c := range s.C {
				if c.W == 1 && c.R == Value(int64(utf8.RuneError)) {
					return false, true
				}
			}
			return true, true
		}
	case "unicode/utf8.RuneLen":
		if r, ok := args[0].(*Sym); ok {
			for w, lim := range []int64{0x80, 0x800, 0x10000} {
				if m.LtConst(r, lim) {
					return int64(w + 1), true
				}
			}
			return int64(4), true
		}
	case "strings.Count":
		if s != nil && t != nil && len(t.C) == 1 {
			n := int64(0)
			for i := range s.C {
				if m.hasPrefix(s, i, t) {
					n++
				}
			}
			return n, true
		}
	case "strings.Index", "strings.Contains":
		if s != nil && t != nil {
			for i := 0; i <= len(s.C); i++ {
				if m.hasPrefix(s, i, t) {
					if name == "strings.Contains" {
						return true, true
					}
					return s.off(i), true
				}
			}
			if name == "strings.Contains" {
				return false, true
			}
			return int64(-1), true
		}
	case "strings.LastIndex":
		if s != nil && t != nil {
			for i := len(s.C); i >= 0; i-- {
				if m.hasPrefix(s, i, t) {
					return s.off(i), true
				}
			}
			return int64(-1), true
		}
	case "strings.IndexByte", "strings.IndexRune", "strings.ContainsRune", "strings.LastIndexByte":
		if s != nil {
			for k := range s.C {
				i := k
				if name == "strings.LastIndexByte" {
					i = len(s.C) - 1 - k
				}
				if m.Truth(m.equal(s.C[i].R, args[1])) {
					if name == "strings.ContainsRune" {
						return true, true
					}
					return s.off(i), true
				}
			}
			if name == "strings.ContainsRune" {
				return false, true
			}
			return int64(-1), true
		}
	case "strings.IndexAny", "strings.ContainsAny", "strings.LastIndexAny":
		if s != nil && t != nil {
			for k := range s.C {
				i := k
				if name == "strings.LastIndexAny" {
					i = len(s.C) - 1 - k
				}
				if charIn(t, s.C[i]) {
					if name == "strings.ContainsAny" {
						return true, true
					}
					return s.off(i), true
				}
			}
			if name == "strings.ContainsAny" {
				return false, true
			}
			return int64(-1), true
		}
	case "strings.HasPrefix":
		if s != nil && t != nil {
			return m.hasPrefix(s, 0, t), true
		}
	case "strings.HasSuffix":
		if s != nil && t != nil {
			return len(t.C) <= len(s.C) && m.hasPrefix(s, len(s.C)-len(t.C), t), true
		}
	case "strings.TrimSuffix":
		if s != nil && t != nil {
			if len(t.C) <= len(s.C) && m.hasPrefix(s, len(s.C)-len(t.C), t) {
				return &RuneStr{s.C[:len(s.C)-len(t.C)]}, true
			}
			return s, true
		}
	case "strings.TrimPrefix":
		if s != nil && t != nil {
			if m.hasPrefix(s, 0, t) {
				return &RuneStr{s.C[len(t.C):]}, true
			}
			return s, true
		}
	}
	return nil, false
}

func firstStr(args []Value) (string, bool) {
	if len(args) == 0 {
		return "", false
	}
	s, ok := args[0].(string)
	return s, ok && !HasHole(s)
}
