package asmx

import (
	"fmt"
	"strconv"
	"strings"
)

// Item is a datum of the data section: a word (its text) or a byte.
type Item struct {
	Off  int64
	Size int64
	Text string
	Byte byte
}

// Image is the data section.
type Image struct {
	Items []Item
	Index map[int64]int // offset -> item
	At    map[string]int64
	Size  int64
	Errs  []string
}

// Unescape reads the bytes of an assembler string.
func Unescape(q string) ([]byte, error) {
	if len(q) < 2 || q[0] != '"' || q[len(q)-1] != '"' {
		return nil, fmt.Errorf("not a string: %s", q)
	}
	s := q[1 : len(q)-1]
	var r []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			return nil, fmt.Errorf("string ends early: %s", q)
		}
		if s[i] != '\\' {
			r = append(r, s[i])
			continue
		}
		i++
		if i >= len(s) {
			return nil, fmt.Errorf("string does not end: %s", q)
		}
		switch c := s[i]; c {
		case 'b':
			r = append(r, 8)
		case 'f':
			r = append(r, 12)
		case 'n':
			r = append(r, 10)
		case 'r':
			r = append(r, 13)
		case 't':
			r = append(r, 9)
		case '\\', '"':
			r = append(r, c)
		case 'x', 'X':
			j := i + 1
			for j < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[j]) >= 0 {
				j++
			}
			n, err := strconv.ParseUint(s[i+1:j], 16, 64)
			if err != nil {
				return nil, fmt.Errorf("bad escape in %s", q)
			}
			r = append(r, byte(n))
			i = j - 1
		default:
			if c < '0' || c > '7' {
				return nil, fmt.Errorf("unknown escape \\%c in %s", c, q)
			}
			n, j := 0, i
			for j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7' {
				n = n*8 + int(s[j]-'0')
				j++
			}
			r = append(r, byte(n))
			i = j - 1
		}
	}
	return r, nil
}

// Data lays out the data section.
func (p *Program) Data() *Image {
	if p.img != nil {
		return p.img
	}
	m := &Image{Index: map[int64]int{}, At: map[string]int64{}}
	in := false
	add := func(size int64, text string, b byte) {
		m.Index[m.Size] = len(m.Items)
		m.Items = append(m.Items, Item{m.Size, size, text, b})
		m.Size += size
	}
	for _, l := range p.Lines {
		switch l.Dir {
		case ".data", ".rodata":
			in = true
			continue
		case ".text":
			in = false
			continue
		case ".section":
			in = len(l.Args) > 0 && !strings.HasPrefix(l.Args[0], ".text")
			continue
		}
		if !in {
			continue
		}
		if l.Label != "" {
			m.At[l.Label] = m.Size
			continue
		}
		switch l.Dir {
		case ".align", ".balign":
			n, err := strconv.ParseInt(l.Args[0], 0, 64)
			if err != nil || n <= 0 {
				m.Errs = append(m.Errs, l.Text)
				continue
			}
			for m.Size%n != 0 {
				add(1, "", 0)
			}
		case ".8byte", ".quad":
			for _, a := range l.Args {
				add(8, strings.TrimSpace(a), 0)
			}
		case ".byte":
			for _, a := range l.Args {
				n, err := strconv.ParseInt(strings.TrimSpace(a), 0, 64)
				if err != nil {
					m.Errs = append(m.Errs, l.Text)
				}
				add(1, "", byte(n))
			}
		case ".ascii", ".asciz", ".string":
			bs, err := Unescape(l.Args[0])
			if err != nil {
				m.Errs = append(m.Errs, err.Error())
			}
			for _, b := range bs {
				add(1, "", b)
			}
			if l.Dir != ".ascii" {
				add(1, "", 0)
			}
		case ".globl", ".type", ".size", ".p2align":
		default:
			if l.Op != "" {
				m.Errs = append(m.Errs, "instruction in the data section: "+l.Text)
			} else {
				m.Errs = append(m.Errs, "unknown directive: "+l.Text)
			}
		}
	}
	p.img = m
	return m
}

// Addr resolves label+constant text to an offset.
func (m *Image) Addr(text string) (int64, bool) {
	if i := strings.IndexByte(text, '+'); i >= 0 {
		n, err := strconv.ParseInt(text[i+1:], 0, 64)
		if err != nil {
			return 0, false
		}
		o, ok := m.At[text[:i]]
		return o + n, ok
	}
	o, ok := m.At[text]
	return o, ok
}

// AddrOf resolves an address word.
func (m *Image) AddrOf(p Poly) (int64, bool) {
	k := p.ConstPart()
	a, ok := p.Sub(Const(k)).SingleAtom()
	if !ok || !strings.HasPrefix(a, "&") {
		return 0, false
	}
	o, ok := m.At[a[1:]]
	return o + k, ok
}

// Word is the 8-byte datum at off.
func (m *Image) Word(off int64) (string, bool) {
	i, ok := m.Index[off]
	if !ok || m.Items[i].Size != 8 {
		return "", false
	}
	return m.Items[i].Text, true
}

// Int is the integer word at off.
func (m *Image) Int(off int64) (int64, bool) {
	t, ok := m.Word(off)
	if !ok {
		return 0, false
	}
	n, err := strconv.ParseInt(t, 0, 64)
	if err != nil {
		u, err2 := strconv.ParseUint(t, 0, 64)
		if err2 != nil {
			return 0, false
		}
		return int64(u), true
	}
	return n, true
}

// Bytes reads n bytes at off.
func (m *Image) Bytes(off, n int64) ([]byte, bool) {
	var r []byte
	for k := int64(0); k < n; k++ {
		i, ok := m.Index[off+k]
		if !ok || m.Items[i].Size != 1 {
			return nil, false
		}
		r = append(r, m.Items[i].Byte)
	}
	return r, true
}

// Str reads the string object at off: header before it, tagged length, bytes, terminator.
func (m *Image) Str(off int64) (s string, header int64, err error) {
	h, ok := m.Int(off - 8)
	if !ok {
		return "", 0, fmt.Errorf("no header before the string object")
	}
	n, ok := m.Int(off)
	if !ok || n&1 == 0 || n < 0 {
		return "", h, fmt.Errorf("no tagged length in the string object")
	}
	b, ok := m.Bytes(off+8, n>>1)
	if !ok {
		return "", h, fmt.Errorf("the string object has fewer bytes than its length %d", n>>1)
	}
	z, ok := m.Bytes(off+8+n>>1, 1)
	if !ok || z[0] != 0 {
		return string(b), h, fmt.Errorf("the string %q is not followed by a zero byte", b)
	}
	return string(b), h, nil
}
