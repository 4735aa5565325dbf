package asmx

import (
	"fmt"
	"strconv"
	"strings"
)

// Operand of an instruction, as printed.
type Operand struct {
	Kind  string // imm, reg, mem, sym (bare symbol), indreg, indmem
	Reg   string
	Base  string
	Idx   string
	Scale int64
	Disp  string // textual: number, hole or symbol
	Imm   string
	Sym   string
	Text  string
}

// Line of the emitted text.
type Line struct {
	Label string
	Dir   string   // directive
	Args  []string // directive arguments
	Op    string   // mnemonic
	Ops   []Operand
	Text  string
	N     int
}

// Program is parsed assembly.
type Program struct {
	Lines  []Line
	Labels map[string]int // label -> line index
	Dups   []string
	img    *Image
	Errs   []string
}

var reg64 = map[string]bool{"rax": true, "rbx": true, "rcx": true, "rdx": true, "rsi": true, "rdi": true, "rbp": true, "rsp": true,
	"r8": true, "r9": true, "r10": true, "r11": true, "r12": true, "r13": true, "r14": true, "r15": true}
var reg8 = map[string]string{"al": "rax", "bl": "rbx", "cl": "rcx", "dl": "rdx", "sil": "rsi", "dil": "rdi",
	"r8b": "r8", "r9b": "r9", "r10b": "r10", "r11b": "r11", "r8l": "r8", "r9l": "r9"}
var reg32 = map[string]string{"eax": "rax", "ebx": "rbx", "ecx": "rcx", "edx": "rdx", "esi": "rsi", "edi": "rdi"}

// Parse splits emitted text into lines. Text may contain template holes.
func Parse(text string) *Program {
	p := &Program{Labels: map[string]int{}}
	for n, raw := range strings.Split(text, "\n") {
		s := strings.TrimSpace(raw)
		if s == "" || strings.HasPrefix(s, ";") || strings.HasPrefix(s, "#") || strings.HasPrefix(s, "//") {
			continue
		}
		l := Line{Text: s, N: n}
		if strings.HasSuffix(s, ":") && !strings.ContainsAny(s, "\"") {
			l.Label = strings.TrimSuffix(s, ":")
			if _, dup := p.Labels[l.Label]; dup {
				p.Dups = append(p.Dups, l.Label)
			}
			p.Labels[l.Label] = len(p.Lines)
			p.Lines = append(p.Lines, l)
			continue
		}
		f := strings.Fields(s)
		l.Op = f[0]
		rest := strings.TrimSpace(s[len(f[0]):])
		if strings.HasPrefix(f[0], ".") {
			l.Dir = f[0]
			l.Op = ""
			if l.Dir == ".ascii" || l.Dir == ".asciz" || l.Dir == ".string" {
				l.Args = []string{rest}
			} else {
				for _, a := range splitTop(rest) {
					l.Args = append(l.Args, a)
				}
			}
			p.Lines = append(p.Lines, l)
			continue
		}
		for _, a := range splitTop(rest) {
			o, err := parseOperand(a)
			if err != nil {
				p.Errs = append(p.Errs, fmt.Sprintf("%s: %v", s, err))
			}
			l.Ops = append(l.Ops, o)
		}
		p.Lines = append(p.Lines, l)
	}
	return p
}

// splitTop splits on commas outside parentheses and holes.
func splitTop(s string) []string {
	var r []string
	depth := 0
	cur := ""
	for _, c := range s {
		switch c {
		case '(', '\x01':
			depth++
		case ')', '\x02':
			depth--
		case ',':
			if depth == 0 {
				r = append(r, strings.TrimSpace(cur))
				cur = ""
				continue
			}
		}
		cur += string(c)
	}
	if strings.TrimSpace(cur) != "" || len(r) > 0 {
		r = append(r, strings.TrimSpace(cur))
	}
	return r
}

func parseOperand(s string) (Operand, error) {
	o := Operand{Text: s}
	ind := false
	if strings.HasPrefix(s, "*") {
		ind = true
		s = s[1:]
	}
	switch {
	case strings.HasPrefix(s, "$"):
		if ind {
			return o, fmt.Errorf("indirect immediate")
		}
		o.Kind, o.Imm = "imm", s[1:]
		return o, nil
	case strings.HasPrefix(s, "%"):
		r := s[1:]
		if !reg64[r] && reg8[r] == "" && reg32[r] == "" {
			return o, fmt.Errorf("unknown register %s", s)
		}
		o.Kind, o.Reg = "reg", r
		if ind {
			o.Kind = "indreg"
		}
		return o, nil
	}
	if i := strings.LastIndex(s, "("); i >= 0 && strings.HasSuffix(s, ")") && strings.Contains(s[i:], "%") {
		o.Disp = strings.TrimSpace(s[:i])
		parts := strings.Split(s[i+1:len(s)-1], ",")
		for j, p := range parts {
			p = strings.TrimSpace(p)
			switch j {
			case 0:
				if p != "" {
					if !strings.HasPrefix(p, "%") || !(reg64[p[1:]] || p == "%rip") {
						return o, fmt.Errorf("bad base %s", p)
					}
					o.Base = p[1:]
				}
			case 1:
				if !strings.HasPrefix(p, "%") || !reg64[p[1:]] || p == "%rsp" {
					return o, fmt.Errorf("bad index %s", p)
				}
				o.Idx = p[1:]
				o.Scale = 1
			case 2:
				n, err := strconv.ParseInt(p, 10, 64)
				if err != nil || (n != 1 && n != 2 && n != 4 && n != 8) {
					return o, fmt.Errorf("bad scale %s", p)
				}
				o.Scale = n
			default:
				return o, fmt.Errorf("bad address %s", s)
			}
		}
		o.Kind = "mem"
		if ind {
			o.Kind = "indmem"
		}
		return o, nil
	}
	if s == "" {
		return o, fmt.Errorf("empty operand")
	}
	if strings.HasPrefix(s, "(") {
		return o, fmt.Errorf("bad address %s", s)
	}
	o.Kind, o.Sym = "sym", s
	if ind {
		o.Kind = "indsym"
	}
	return o, nil
}
