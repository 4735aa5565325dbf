package asmx

import (
	"fmt"
	"strconv"
	"strings"
)

// Event is an observable action of generated code.
type Event struct {
	Kind      string // call, store, ret
	Target    string
	TargetVal Poly // for indirect calls
	Regs      map[string]Poly
	Addr      Poly
	Val       Poly
	Map       string // root map label after the call
	HasMap    bool
	NoCollect bool           // no collection can start in the callee
	Depth     int64          // rbp - rsp in bytes at the event
	Stack     map[int64]Poly // live stack words by offset below rbp
	Line      string
	Bytes     bool
	later     map[int64]bool // stack offsets whose pre-call word was read after the call
	written   map[int64]bool
}

// ReadLater lists stack offsets (below rbp) whose content at the event was read afterwards.
func (e *Event) ReadLater() map[int64]bool { return e.later }

// Callee describes how the machine models a call target.
type Callee struct {
	Clara    bool   // returns past the collector word
	Result   string // kind of the result word
	NoReturn bool
	// NoCollect: no collection starts before the callee returns
	NoCollect bool
	// Handler models a callee whose meaning is known: it may rewrite the event and gives the result; keep says whether it is an effect.
	Handler func(ev *Event) (result Poly, keep bool)
}

// Machine interprets a parsed function abstractly.
type Machine struct {
	W      *World
	P      *Program
	Reg    map[string]Poly
	Stack  map[int64]Poly // offset from RBP (negative below) -> word
	Garb   int
	flags  func(cc string) (Poly, error)
	Events []Event
	Steps  int
	// Callees resolves call targets. target is a symbol or "*"+key of the address.
	Callees func(target string, val Poly) (Callee, error)
	// HoleVal gives the word an immediate or displacement hole denotes.
	HoleVal func(hole string) (Poly, error)
	// ReadOnly data loads
	cell       map[string]Poly // heap words written, by address key, cleared at calls
	base       Poly
	CallNo     int
	ResultName func(n int, target string) string
	MaxVisits  int
}

type Fault struct{ Msg string }

func (f Fault) Error() string { return f.Msg }

func (m *Machine) fail(l *Line, f string, a ...interface{}) {
	t := ""
	if l != nil {
		t = " at `" + strings.Join(strings.Fields(l.Text), " ") + "`"
	}
	panic(Fault{fmt.Sprintf(f, a...) + t})
}

func NewMachine(w *World, p *Program) *Machine {
	m := &Machine{W: w, P: p, Reg: map[string]Poly{}, Stack: map[int64]Poly{}, cell: map[string]Poly{}, MaxVisits: 6}
	for r := range reg64 {
		m.Reg[r] = m.garbage(r)
	}
	m.Reg["rbp"] = Atom("RBP0")
	m.Reg["rsp"] = Atom("RSP0")
	return m
}

func (m *Machine) garbage(what string) Poly {
	m.Garb++
	return Atom(fmt.Sprintf("garbage%d:%s", m.Garb, what))
}

func IsGarbage(p Poly) bool {
	for k := range p.t {
		if strings.Contains(k, "garbage") {
			return true
		}
	}
	return false
}

// stackOff returns the offset of an address relative to the frame base atom.
func (m *Machine) stackOff(a Poly) (int64, bool) {
	d := a.Sub(m.frameBase())
	return d.IsConst()
}

// The frame base atom: stack addresses are RSP0 + constant.
func (m *Machine) frameBase() Poly { return Atom("RSP0") }

// RbpOff converts an absolute stack offset to one relative to the current rbp.
func (m *Machine) rbpRel(off int64) (int64, bool) {
	b, ok := m.stackOff(m.Reg["rbp"])
	return off - b, ok
}

func (m *Machine) imm(l *Line, s string) Poly {
	if s == "" {
		return Const(0)
	}
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "-0x") || (s[0] >= '0' && s[0] <= '9') || s[0] == '-' {
		if i, err := strconv.ParseInt(s, 0, 64); err == nil {
			return Const(i)
		}
		if u, err := strconv.ParseUint(s, 0, 64); err == nil {
			return Const(int64(u))
		}
	}
	if strings.Contains(s, "\x01") {
		if m.HoleVal == nil {
			m.fail(l, "unknown immediate")
		}
		v, err := m.HoleVal(s)
		if err != nil {
			m.fail(l, "immediate: %v", err)
		}
		return v
	}
	// symbol[+n]
	off := int64(0)
	if i := strings.LastIndexAny(s, "+-"); i > 0 {
		if n, err := strconv.ParseInt(s[i:], 10, 64); err == nil {
			off = n
			s = s[:i]
		}
	}
	// a string object is known by its bytes
	img := m.P.Data()
	if at, ok := img.At[s]; ok {
		if v, _, err := img.Str(at + off); err == nil {
			return StrAtom(v)
		}
	}
	return Atom("&" + strings.ReplaceAll(s, "*", "×")).Add(Const(off))
}

// StrAtom is the address of a static string object.
func StrAtom(v string) Poly { return Atom(fmt.Sprintf("&str:%x:", v)) }

func (m *Machine) ea(l *Line, o Operand) Poly {
	a := m.imm(l, o.Disp)
	if o.Base != "" && o.Base != "rip" {
		a = a.Add(m.Reg[o.Base])
	}
	if o.Idx != "" {
		a = a.Add(m.Reg[o.Idx].Scale(uint64(o.Scale)))
	}
	return a
}

// Epoch counts memory effects so far.
func (m *Machine) Epoch() int {
	n := 0
	for _, e := range m.Events {
		if e.Kind == "call" || e.Kind == "store" {
			n++
		}
	}
	return n
}

func (m *Machine) load(l *Line, a Poly) Poly {
	if off, ok := m.stackOff(a); ok {
		rsp, _ := m.stackOff(m.Reg["rsp"])
		if off < rsp {
			m.fail(l, "read below the stack pointer")
		}
		for i := range m.Events {
			e := &m.Events[i]
			if e.Kind == "call" && !e.written[off] {
				e.later[off] = true
			}
		}
		if v, ok := m.Stack[off]; ok {
			return v
		}
		return m.garbage(fmt.Sprintf("stack[%d]", off))
	}
	for k := range a.t {
		if k == "RSP0" {
			m.fail(l, "stack access at a computed address %s", a)
		}
	}
	if IsGarbage(a) {
		m.fail(l, "read through an undefined address %s", a)
	}
	if v, ok := m.cell[a.Key()]; ok {
		return v
	}
	return m.W.Load(a, m.Epoch())
}

func (m *Machine) store(l *Line, a, v Poly, byteW bool) {
	if off, ok := m.stackOff(a); ok {
		rsp, _ := m.stackOff(m.Reg["rsp"])
		if off < rsp {
			m.fail(l, "write below the stack pointer")
		}
		if off >= 0 {
			m.fail(l, "write into the caller's frame")
		}
		m.Stack[off] = v
		for i := range m.Events {
			if m.Events[i].written != nil {
				m.Events[i].written[off] = true
			}
		}
		return
	}
	for k := range a.t {
		if k == "RSP0" {
			m.fail(l, "stack write at a computed address %s", a)
		}
	}
	if IsGarbage(a) {
		m.fail(l, "write through an undefined address %s", a)
	}
	m.Events = append(m.Events, Event{Kind: "store", Addr: a, Val: v, Line: l.Text, Bytes: byteW})
	m.cell = map[string]Poly{a.Key(): v}
}

func (m *Machine) get(l *Line, o Operand) Poly {
	switch o.Kind {
	case "imm":
		return m.imm(l, o.Imm)
	case "reg":
		if reg64[o.Reg] {
			return m.Reg[o.Reg]
		}
		if b, ok := reg8[o.Reg]; ok {
			return m.low8(m.Reg[b])
		}
		m.fail(l, "32-bit register")
	case "mem":
		return m.load(l, m.ea(l, o))
	}
	m.fail(l, "operand %s", o.Text)
	return Poly{}
}

func (m *Machine) low8(p Poly) Poly {
	if c, ok := p.IsConst(); ok {
		return Const(c & 0xff)
	}
	if m.W.isBool(p) {
		return p
	}
	// 256*H + b
	r := Poly{map[string]uint64{}}
	for k, v := range p.t {
		if v&0xff != 0 {
			r.t[k] = v & 0xff
		}
	}
	if m.W.isBool(r) {
		return r
	}
	return m.W.opAtom("low8", AtomInfo{R63: true}, p)
}

func (m *Machine) set(l *Line, o Operand, v Poly) {
	switch o.Kind {
	case "reg":
		if reg64[o.Reg] {
			m.Reg[o.Reg] = v
			return
		}
		if b, ok := reg8[o.Reg]; ok {
			h := m.W.opAtom("hi8", AtomInfo{}, m.Reg[b])
			m.Reg[b] = h.Scale(256).Add(v)
			return
		}
	case "mem":
		m.store(l, m.ea(l, o), v, false)
		return
	}
	m.fail(l, "destination %s", o.Text)
}

func (m *Machine) push(l *Line, v Poly) {
	m.Reg["rsp"] = m.Reg["rsp"].Sub(Const(8))
	off, ok := m.stackOff(m.Reg["rsp"])
	if !ok {
		m.fail(l, "stack pointer lost")
	}
	m.Stack[off] = v
	for i := range m.Events {
		if m.Events[i].written != nil {
			m.Events[i].written[off] = true
		}
	}
}

func (m *Machine) pop(l *Line) Poly {
	off, ok := m.stackOff(m.Reg["rsp"])
	if !ok {
		m.fail(l, "stack pointer lost")
	}
	v := m.load(l, m.Reg["rsp"])
	delete(m.Stack, off)
	m.Reg["rsp"] = m.Reg["rsp"].Add(Const(8))
	return v
}

// Run interprets from a label until a return. It reports how the function left ("ret" plain, "skip" past one word).
func (m *Machine) Run(label string) (exit string) {
	i, ok := m.P.Labels[label]
	if !ok {
		m.fail(nil, "no code for %q", label)
	}
	// return address on the stack
	m.Stack[0] = Atom("RETADDR")
	m.Reg["rsp"] = m.frameBase()
	w := m.W
	visits := map[int]int{}
	for {
		if i >= len(m.P.Lines) {
			m.fail(nil, "execution runs past the end of the code")
		}
		l := &m.P.Lines[i]
		m.Steps++
		if m.Steps > 20000+4*len(m.P.Lines) {
			panic(Cut{})
		}
		if l.Label != "" {
			visits[i]++
			if visits[i] > m.MaxVisits {
				panic(Cut{})
			}
			if l.Label != label && m.isFunction(l.Label) {
				m.fail(l, "execution runs into the next function")
			}
			i++
			continue
		}
		if l.Dir != "" {
			switch l.Dir {
			case ".align", ".globl", ".type", ".text":
				i++
				continue
			}
			m.fail(l, "execution runs into data")
		}
		cur := i
		i++
		nops := func(n int) {
			if len(l.Ops) != n {
				m.fail(l, "wrong number of operands")
			}
		}
		notMemMem := func() {
			if len(l.Ops) == 2 && l.Ops[0].Kind == "mem" && l.Ops[1].Kind == "mem" {
				m.fail(l, "two memory operands")
			}
		}
		logic := func(v Poly) {
			m.flags = func(cc string) (Poly, error) { return m.ccZero(cc, v) }
		}
		switch op := l.Op; op {
		case "movq", "movabs", "movabsq", "mov":
			nops(2)
			notMemMem()
			src, dst := l.Ops[0], l.Ops[1]
			if op != "movq" && op != "mov" && dst.Kind != "reg" {
				m.fail(l, "movabs needs a register destination")
			}
			if src.Kind == "reg" && !reg64[src.Reg] || dst.Kind == "reg" && !reg64[dst.Reg] {
				m.fail(l, "operand size mismatch")
			}
			v := m.get(l, src)
			if src.Kind == "imm" {
				m.checkImm(l, src, v, dst.Kind == "mem")
			}
			m.set(l, dst, v)
		case "movb":
			nops(2)
			notMemMem()
			v := m.get(l, l.Ops[0])
			if l.Ops[1].Kind == "mem" {
				m.store(l, m.ea(l, l.Ops[1]), v, true)
			} else {
				m.set(l, l.Ops[1], v)
			}
		case "movsbq":
			nops(2)
			if l.Ops[0].Kind == "mem" {
				a := m.ea(l, l.Ops[0])
				v := w.opAtom(fmt.Sprintf("ldb%d", m.Epoch()), AtomInfo{R63: true}, a)
				m.set(l, l.Ops[1], v)
			} else {
				v := m.get(l, l.Ops[0])
				if !w.isBool(v) {
					v = w.opAtom("sx8", AtomInfo{R63: true}, v)
				}
				m.set(l, l.Ops[1], v)
			}
		case "movzbq", "movzbl":
			nops(2)
			dst := l.Ops[1]
			if b, ok := reg32[dst.Reg]; ok {
				dst.Reg = b
			}
			if l.Ops[0].Kind == "mem" {
				a := m.ea(l, l.Ops[0])
				m.set(l, dst, w.opAtom(fmt.Sprintf("ldub%d", m.Epoch()), AtomInfo{R63: true}, a))
			} else {
				m.set(l, dst, m.get(l, l.Ops[0]))
			}
		case "xorl":
			nops(2)
			if l.Ops[0].Reg == l.Ops[1].Reg && reg32[l.Ops[0].Reg] != "" {
				m.Reg[reg32[l.Ops[0].Reg]] = Const(0)
			} else {
				m.fail(l, "unmodelled instruction")
			}
		case "leaq":
			nops(2)
			if l.Ops[0].Kind != "mem" {
				m.fail(l, "leaq needs an address")
			}
			m.set(l, l.Ops[1], m.ea(l, l.Ops[0]))
		case "pushq", "push":
			nops(1)
			v := m.get(l, l.Ops[0])
			if l.Ops[0].Kind == "imm" {
				m.checkImm(l, l.Ops[0], v, true)
			}
			m.push(l, v)
		case "popq", "pop":
			nops(1)
			m.set(l, l.Ops[0], m.pop(l))
		case "xchgq":
			nops(2)
			a, b := m.get(l, l.Ops[0]), m.get(l, l.Ops[1])
			m.set(l, l.Ops[0], b)
			m.set(l, l.Ops[1], a)
		case "addq", "subq", "andq", "orq", "xorq", "imulq":
			nops(2)
			notMemMem()
			s, d := m.get(l, l.Ops[0]), m.get(l, l.Ops[1])
			if l.Ops[0].Kind == "imm" {
				m.checkImm(l, l.Ops[0], s, true)
			}
			if op == "imulq" && l.Ops[1].Kind != "reg" {
				m.fail(l, "imulq needs a register destination")
			}
			var r Poly
			switch op {
			case "addq":
				r = d.Add(s)
			case "subq":
				r = d.Sub(s)
			case "imulq":
				r = w.Mul(d, s)
			case "andq":
				if c, ok := s.IsConst(); ok && c == -16 {
					if off, ok := m.stackOff(d); ok {
						// stack alignment: rsp is 16-aligned at RSP0-8 (mod 16)
						r = m.frameBase().Add(Const(alignDown(off)))
						break
					}
				}
				r = w.Bit("and", d, s)
			case "orq":
				r = w.Bit("or", d, s)
			case "xorq":
				r = w.Bit("xor", d, s)
			}
			m.set(l, l.Ops[1], r)
			if op == "subq" {
				m.flags = m.cmpFlags(d, s)
			} else {
				logic(r)
			}
		case "incq":
			m.set(l, l.Ops[0], m.get(l, l.Ops[0]).Add(Const(1)))
			m.flags = nil
		case "decq":
			m.set(l, l.Ops[0], m.get(l, l.Ops[0]).Sub(Const(1)))
			m.flags = nil
		case "notq":
			nops(1)
			m.set(l, l.Ops[0], m.get(l, l.Ops[0]).Not())
		case "negq":
			nops(1)
			m.set(l, l.Ops[0], Const(0).Sub(m.get(l, l.Ops[0])))
			m.flags = nil
		case "shlq", "salq", "sarq", "shrq":
			dst := l.Ops[len(l.Ops)-1]
			d := m.get(l, dst)
			var r Poly
			if len(l.Ops) == 1 || l.Ops[0].Kind == "imm" {
				k := int64(1)
				if len(l.Ops) == 2 {
					c, ok := m.imm(l, l.Ops[0].Imm).IsConst()
					if !ok || c < 0 || c > 63 {
						m.fail(l, "shift count")
					}
					k = c
				}
				switch op {
				case "shlq", "salq":
					r = w.Shl(d, uint(k))
				case "sarq":
					r = w.Sar(d, uint(k))
				default:
					r = w.Shr(d, uint(k))
				}
			} else {
				if l.Ops[0].Kind != "reg" || l.Ops[0].Reg != "cl" {
					m.fail(l, "shift count must be in cl")
				}
				c := m.Reg["rcx"]
				switch op {
				case "shlq", "salq":
					r = w.ShlV(d, c)
				case "sarq":
					r = w.SarV(d, c)
				default:
					r = w.ShrV(d, c)
				}
			}
			m.set(l, dst, r)
			m.flags = nil
		case "cqo", "cqto":
			m.Reg["rdx"] = w.opAtom("sgn", AtomInfo{}, m.Reg["rax"])
		case "idivq":
			var src Operand
			switch len(l.Ops) {
			case 1:
				src = l.Ops[0]
			case 2:
				src = l.Ops[0]
				if l.Ops[1].Kind != "reg" || l.Ops[1].Reg != "rax" {
					m.fail(l, "idivq divides rdx:rax")
				}
			default:
				m.fail(l, "wrong number of operands")
			}
			d := m.get(l, src)
			if src.Kind == "imm" {
				m.fail(l, "idivq by an immediate")
			}
			if !m.Reg["rdx"].Eq(w.opAtom("sgn", AtomInfo{}, m.Reg["rax"])) {
				m.fail(l, "rdx is not the sign extension of rax")
			}
			m.Reg["rax"], m.Reg["rdx"] = w.Div(m.Reg["rax"], d), w.Rem(m.Reg["rax"], d)
			m.flags = nil
		case "cmpq":
			nops(2)
			notMemMem()
			s, d := m.get(l, l.Ops[0]), m.get(l, l.Ops[1])
			if l.Ops[1].Kind == "imm" {
				m.fail(l, "cmpq with immediate destination")
			}
			m.flags = m.cmpFlags(d, s)
		case "testq":
			nops(2)
			logic(w.Bit("and", m.get(l, l.Ops[0]), m.get(l, l.Ops[1])))
		case "jmp":
			nops(1)
			switch l.Ops[0].Kind {
			case "sym":
				t, ok := m.P.Labels[l.Ops[0].Sym]
				if !ok {
					m.fail(l, "jump to an undefined label")
				}
				i = t
			case "indreg", "indmem":
				var v Poly
				if l.Ops[0].Kind == "indreg" {
					v = m.Reg[l.Ops[0].Reg]
				} else {
					v = m.load(l, m.ea(l, l.Ops[0]))
				}
				off, ok := v.Sub(Atom("RETADDR")).IsConst()
				if !ok {
					m.fail(l, "indirect jump to %s", v)
				}
				m.checkLeft(l)
				if off == 8 {
					return "skip"
				}
				return fmt.Sprintf("return+%d", off)
			default:
				m.fail(l, "jump operand")
			}
		case "ret", "retq":
			v := m.pop(l)
			if !v.Eq(Atom("RETADDR")) {
				m.fail(l, "returns to %s", v)
			}
			m.checkLeft(l)
			return "ret"
		case "leave":
			m.Reg["rsp"] = m.Reg["rbp"]
			if _, ok := m.stackOff(m.Reg["rsp"]); !ok {
				m.fail(l, "frame pointer lost")
			}
			m.Reg["rbp"] = m.pop(l)
		case "enter":
			nops(2)
			n, ok1 := m.get(l, l.Ops[0]).IsConst()
			z, ok2 := m.get(l, l.Ops[1]).IsConst()
			if !ok1 || !ok2 || z != 0 || n < 0 || n > 65535 {
				m.fail(l, "frame size")
			}
			m.push(l, m.Reg["rbp"])
			m.Reg["rbp"] = m.Reg["rsp"]
			m.Reg["rsp"] = m.Reg["rsp"].Sub(Const(n))
		case "call":
			nops(1)
			i = m.call(l, cur)
			if i < 0 {
				return "noreturn"
			}
		case "nop":
		default:
			if strings.HasPrefix(op, "j") {
				nops(1)
				if m.flags == nil {
					m.fail(l, "jump on undefined flags")
				}
				c, err := m.flags(op[1:])
				if err != nil {
					m.fail(l, "%v", err)
				}
				tk, err := w.Truth(c)
				if err != nil {
					m.fail(l, "%v", err)
				}
				if tk {
					t, ok := m.P.Labels[l.Ops[0].Sym]
					if !ok {
						m.fail(l, "jump to an undefined label")
					}
					i = t
				}
				continue
			}
			if strings.HasPrefix(op, "set") {
				nops(1)
				if m.flags == nil {
					m.fail(l, "set on undefined flags")
				}
				if l.Ops[0].Kind != "reg" || reg8[l.Ops[0].Reg] == "" {
					m.fail(l, "setcc needs a byte register")
				}
				c, err := m.flags(op[3:])
				if err != nil {
					m.fail(l, "%v", err)
				}
				m.set(l, l.Ops[0], c)
				continue
			}
			m.fail(l, "unknown instruction")
		}
	}
}

func alignDown(off int64) int64 {
	// RSP0 ≡ 8 (mod 16)
	for (off+8)%16 != 0 {
		off--
	}
	return off
}

func (m *Machine) isFunction(label string) bool {
	for _, l := range m.P.Lines {
		if l.Dir == ".globl" && len(l.Args) == 1 && l.Args[0] == label {
			return true
		}
	}
	return false
}

// checkLeft verifies the state a function hands back to its caller.
func (m *Machine) checkLeft(l *Line) {
	if !m.Reg["rbp"].Eq(Atom("RBP0")) {
		m.fail(l, "caller's frame pointer not restored")
	}
	if off, ok := m.stackOff(m.Reg["rsp"]); !ok || off != 8 {
		m.fail(l, "stack pointer not restored")
	}
	for _, r := range []string{"r12", "r13", "r14", "r15"} {
		if k := m.Reg[r].Key(); !strings.Contains(k, ":"+r) {
			m.fail(l, "callee-saved %s changed", r)
		}
	}
}

func (m *Machine) checkImm(l *Line, o Operand, v Poly, imm32 bool) {
	if !imm32 {
		return
	}
	if c, ok := v.IsConst(); ok {
		if c < -(1<<31) || c >= 1<<31 {
			m.fail(l, "immediate does not fit in 32 bits")
		}
		return
	}
	if a, ok := v.SingleAtom(); ok {
		in := m.W.info(a)
		if in.HasRange && in.Lo >= -(1<<31) && in.Hi < 1<<31 {
			return
		}
	}
	m.fail(l, "immediate %s may not fit in 32 bits", o.Text)
}

func (m *Machine) cmpFlags(d, s Poly) func(string) (Poly, error) {
	w := m.W
	return func(cc string) (Poly, error) {
		switch cc {
		case "e", "z":
			return w.EqW(d, s), nil
		case "ne", "nz":
			return Const(1).Sub(w.EqW(d, s)), nil
		case "l", "nge":
			return w.Lt(d, s), nil
		case "ge", "nl":
			return Const(1).Sub(w.Lt(d, s)), nil
		case "g", "nle":
			return w.Lt(s, d), nil
		case "le", "ng":
			return Const(1).Sub(w.Lt(s, d)), nil
		case "b", "c", "nae":
			return w.Ult(d, s), nil
		case "ae", "nc", "nb":
			return Const(1).Sub(w.Ult(d, s)), nil
		case "a", "nbe":
			return w.Ult(s, d), nil
		case "be", "na":
			return Const(1).Sub(w.Ult(s, d)), nil
		}
		return Poly{}, fmt.Errorf("condition %s", cc)
	}
}

func (m *Machine) ccZero(cc string, v Poly) (Poly, error) {
	w := m.W
	switch cc {
	case "e", "z":
		return w.EqW(v, Const(0)), nil
	case "ne", "nz":
		return Const(1).Sub(w.EqW(v, Const(0))), nil
	case "s":
		return w.Lt(v, Const(0)), nil
	case "ns":
		return Const(1).Sub(w.Lt(v, Const(0))), nil
	}
	return Poly{}, fmt.Errorf("condition %s after an arithmetic instruction", cc)
}

var callerSaved = []string{"rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "rbx"}

func (m *Machine) call(l *Line, at int) int {
	o := l.Ops[0]
	target := ""
	var tv Poly
	switch o.Kind {
	case "sym":
		target = o.Sym
	case "indreg":
		tv = m.Reg[o.Reg]
		target = "*"
	case "indmem":
		tv = m.load(l, m.ea(l, o))
		target = "*"
	default:
		m.fail(l, "call operand")
	}
	if target == "*" && IsGarbage(tv) {
		m.fail(l, "call through an undefined value %s", tv)
	}
	off, ok := m.stackOff(m.Reg["rsp"])
	if !ok {
		m.fail(l, "stack pointer lost")
	}
	if (off+8)%16 != 0 {
		m.fail(l, "stack not 16-byte aligned at call")
	}
	ev := Event{Kind: "call", Target: target, TargetVal: tv, Regs: map[string]Poly{}, Line: l.Text, Stack: map[int64]Poly{},
		later: map[int64]bool{}, written: map[int64]bool{}}
	for r, v := range m.Reg {
		ev.Regs[r] = v
	}
	rbp, ok := m.stackOff(m.Reg["rbp"])
	if !ok {
		m.fail(l, "frame pointer lost")
	}
	ev.Depth = rbp - off
	for k, v := range m.Stack {
		if k >= off {
			ev.Stack[k] = v
		}
	}
	c, err := m.Callees(target, tv)
	if err != nil {
		m.fail(l, "%v", err)
	}
	next := at + 1
	if c.Clara {
		// skip to the collector word: it must be the very next thing emitted
		if next >= len(m.P.Lines) || m.P.Lines[next].Dir != ".8byte" || len(m.P.Lines[next].Args) != 1 {
			m.fail(l, "no collector word after a call that skips one")
		}
		ev.Map, ev.HasMap, ev.NoCollect = m.P.Lines[next].Args[0], true, c.NoCollect
		next++
	}
	for _, r := range callerSaved {
		m.Reg[r] = m.garbage("after call")
	}
	m.flags = nil
	if c.Handler != nil {
		v, keep := c.Handler(&ev)
		m.Reg["rax"] = v
		for k := range m.Stack {
			if k < off {
				delete(m.Stack, k)
			}
		}
		if keep {
			m.Events = append(m.Events, ev)
			m.cell = map[string]Poly{}
			if ev.Kind == "store" {
				m.cell[ev.Addr.Key()] = ev.Val
			}
		}
		return next
	}
	m.CallNo++
	name := fmt.Sprintf("r%d", m.CallNo)
	if m.ResultName != nil {
		name = m.ResultName(m.CallNo, target)
	}
	if c.Result != "" {
		m.Reg["rax"] = m.W.Word(name, c.Result)
	}
	// the return address was pushed and popped: words below rsp are gone
	for k := range m.Stack {
		if k < off {
			delete(m.Stack, k)
		}
	}
	m.Events = append(m.Events, ev)
	m.cell = map[string]Poly{}
	if c.NoReturn {
		return -1
	}
	return next
}

// LocalWord reads the frame slot at -off(%rbp) at an event.
func (e *Event) LocalWord(frame int64, off int64) (Poly, bool) {
	v, ok := e.Stack[frame-off]
	return v, ok
}

// FrameOff returns rbp's absolute stack offset.
func (m *Machine) FrameOff() (int64, bool) { return m.stackOff(m.Reg["rbp"]) }

// Directive data of a label: the sequence of .8byte arguments following it up to the next label or other directive.
func (p *Program) Words(label string) ([]string, bool) {
	i, ok := p.Labels[label]
	if !ok {
		return nil, false
	}
	var r []string
	for j := i + 1; j < len(p.Lines); j++ {
		if p.Lines[j].Dir != ".8byte" {
			break
		}
		r = append(r, p.Lines[j].Args...)
	}
	return r, true
}
