package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/ai"
	"verif/engine/asmx"
)

// rawWriter makes the code generator write through the printer directly, without instruction clean-up.
func rawWriter(c *Ctx) func(m *ai.Machine) {
	opt := c.MustAnchor("NewOptimiser")
	return func(m *ai.Machine) {
		m.Hooks[opt] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) { return args[0], true }
	}
}

// full64 are the machine's registers by the name of any part.
var fullReg = map[string]string{"al": "rax", "bl": "rbx", "cl": "rcx", "dl": "rdx", "sil": "rsi", "dil": "rdi", "r8b": "r8", "r9b": "r9", "r10b": "r10", "r11b": "r11", "r8l": "r8", "r9l": "r9", "eax": "rax", "ebx": "rbx", "ecx": "rcx", "edx": "rdx", "esi": "rsi", "edi": "rdi"}

func full(r string) string {
	if f, ok := fullReg[r]; ok {
		return f
	}
	return r
}
func isPart(r string) bool { return fullReg[r] != "" }

// encodable says why the processor has no such instruction, or "".
func encodable(l *asmx.Line) string {
	k := func(i int) string {
		o := l.Ops[i]
		if o.Kind == "reg" && isPart(o.Reg) {
			return "reg8"
		}
		return o.Kind
	}
	imm32 := func(i int) bool {
		if l.Ops[i].Kind != "imm" {
			return true
		}
		v, err := strconv.ParseInt(l.Ops[i].Imm, 0, 64)
		if err != nil {
			_, err := strconv.ParseUint(l.Ops[i].Imm, 0, 64)
			return err != nil // a symbol: below 2^31 in a non-PIE executable
		}
		return v >= -1<<31 && v < 1<<31
	}
	in := func(s string, set ...string) bool {
		for _, x := range set {
			if s == x {
				return true
			}
		}
		return false
	}
	n := len(l.Ops)
	want := func(c int) string {
		if n != c {
			return fmt.Sprintf("%d operands", n)
		}
		return ""
	}
	switch l.Op {
	case "cqo", "leave", "ret":
		return want(0)
	case "enter":
		if n != 2 || k(0) != "imm" || k(1) != "imm" {
			return "operands"
		}
	case "movabs", "movabsq":
		if n != 2 || k(0) != "imm" || k(1) != "reg" {
			return "operands"
		}
	case "movsbq", "movzbq":
		if n != 2 || !in(k(0), "mem", "reg8") || k(1) != "reg" {
			return "operands"
		}
	case "movb":
		if n != 2 || !in(k(0), "imm", "reg8", "mem") || !in(k(1), "reg8", "mem") || k(0) == "mem" && k(1) == "mem" {
			return "operands"
		}
	case "leaq":
		if n != 2 || k(0) != "mem" || k(1) != "reg" {
			return "operands"
		}
	case "pushq", "popq", "notq", "negq", "idivq", "mulq", "divq", "incq", "decq":
		if l.Op == "idivq" && n == 2 && in(k(0), "reg", "mem") && k(1) == "reg" && l.Ops[1].Reg == "rax" {
			return "" // the assembler's explicit form
		}
		if n != 1 || !(in(k(0), "reg", "mem") || l.Op == "pushq" && k(0) == "imm" && imm32(0)) {
			return "operand"
		}
	case "movq", "orq", "xorq", "andq", "cmpq", "addq", "subq", "testq":
		if n != 2 || !in(k(0), "imm", "reg", "mem") || !in(k(1), "reg", "mem") || k(0) == "mem" && k(1) == "mem" {
			return "operands"
		}
		if !imm32(0) && !(l.Op == "movq" && k(1) == "reg") {
			return "immediate beyond 32 bits"
		}
	case "imulq":
		if n != 2 && n != 3 || n == 2 && (!in(k(0), "imm", "reg", "mem") || k(1) != "reg" || !imm32(0)) {
			return "operands"
		}
	case "shlq", "sarq", "shrq":
		if n != 2 || !(k(0) == "imm" || k(0) == "reg8" && l.Ops[0].Reg == "cl") || !in(k(1), "reg", "mem") {
			return "operands"
		}
	case "jmp", "call":
		if n != 1 || !in(k(0), "sym", "indreg", "indmem") {
			return "operand"
		}
	default:
		switch {
		case strings.HasPrefix(l.Op, "set"):
			if n != 1 || !in(k(0), "reg8", "mem") {
				return "operand"
			}
		case l.Op[0] == 'j':
			if n != 1 || k(0) != "sym" {
				return "operand"
			}
		default:
			return "unknown mnemonic"
		}
	}
	for _, o := range l.Ops {
		if (o.Kind == "mem" || o.Kind == "indmem") && o.Base == "" && o.Disp == "" && o.Idx == "" {
			return "no address"
		}
		if o.Kind == "mem" && o.Base != "" && o.Idx == "" && o.Scale > 0 {
			return "address"
		}
	}
	return ""
}

// arity is the most parameters of the functions with a name.
type arity map[string]int

func (a arity) add(name string, n int) {
	if k, ok := a[name]; !ok || n > k {
		a[name] = n
	}
}

func (a arity) of(l *asmx.Line) int {
	if l.Ops[0].Kind != "sym" {
		return 0 // arguments of function values are compared with their definition by C02 and C13
	}
	if n := a.named(l.Ops[0].Sym); n >= 0 {
		return n
	}
	return 6
}

func (a arity) named(t string) int {
	t = strings.TrimPrefix(t, "clara_")
	for {
		if n, ok := a[t]; ok {
			return n
		}
		i := strings.LastIndexAny(t, ".")
		if i < 0 {
			return -1
		}
		t = t[:i]
	}
}

func arityOf(sp *SProg) arity {
	a := arity{}
	for _, d := range sp.Decls {
		switch d.Op {
		case "fn":
			a.add(d.Name, len(d.Params))
			if hasAttr(d, "variadic") {
				a[d.Name] = 6
				a["variadic "+d.Name] = 1
			}
		}
	}
	return a
}

// effect of one instruction on registers.
func usesDefs(l *asmx.Line, ar arity) (use, def []string) {
	addr := func(o asmx.Operand) {
		if o.Base != "" {
			use = append(use, o.Base)
		}
		if o.Idx != "" {
			use = append(use, o.Idx)
		}
	}
	for i, o := range l.Ops {
		switch o.Kind {
		case "mem", "indmem":
			addr(o)
		case "indreg":
			use = append(use, o.Reg)
		case "reg":
			last := i == len(l.Ops)-1
			r := full(o.Reg)
			pure := last && (l.Op == "movq" || l.Op == "movabs" || l.Op == "movabsq" || l.Op == "movsbq" || l.Op == "movzbq" || l.Op == "leaq" || l.Op == "popq")
			if !pure {
				use = append(use, r)
			}
			if last && l.Op != "cmpq" && l.Op != "testq" && l.Op != "pushq" && !isPart(o.Reg) {
				def = append(def, r)
			}
		}
	}
	switch l.Op {
	case "pushq", "popq":
		use, def = append(use, "rsp"), append(def, "rsp")
	case "idivq", "divq", "mulq":
		use, def = append(use, "rax", "rdx"), append(def, "rax", "rdx")
	case "cqo":
		use, def = append(use, "rax"), append(def, "rdx")
	case "leave", "enter":
		use, def = append(use, "rbp", "rsp"), append(def, "rbp", "rsp")
	case "call":
		use = append(append(use, argRegs[:ar.of(l)]...), "rsp", "rbp")
		def = append(def, "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11")
	case "ret":
		use = append(use, "rax", "rsp", "rbp", "r12", "r13", "r14", "r15")
	}
	return
}

// boundary instructions end a straight line.
func isBoundary(l *asmx.Line) bool {
	return l.Label != "" || l.Dir != "" || l.Op == "call" || l.Op == "ret" || l.Op[0] == 'j'
}

// liveAt computes, per line, the registers that may be read later.
func liveAt(p *asmx.Program, ar arity) []map[string]bool {
	n := len(p.Lines)
	out := make([]map[string]bool, n)
	in := make([]map[string]bool, n)
	for i := range out {
		out[i], in[i] = map[string]bool{}, map[string]bool{}
	}
	saved := []string{"rax", "rsp", "rbp", "r12", "r13", "r14", "r15"}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			l := &p.Lines[i]
			succ := []int{}
			exit := false
			switch {
			case l.Op == "ret":
			case l.Op != "" && l.Op[0] == 'j':
				if t, ok := p.Labels[l.Ops[0].Sym]; ok && l.Ops[0].Kind == "sym" {
					succ = append(succ, t)
				} else {
					exit = true
				}
				if l.Op != "jmp" && i+1 < n {
					succ = append(succ, i+1)
				}
			default:
				if i+1 < n {
					succ = append(succ, i+1)
				}
			}
			add := func(m map[string]bool, r string) {
				if !m[r] {
					m[r] = true
					changed = true
				}
			}
			for _, s := range succ {
				for r := range in[s] {
					add(out[i], r)
				}
			}
			if exit {
				for _, r := range saved {
					add(out[i], r)
				}
				if l.Ops[0].Kind == "sym" {
					for _, r := range argRegs {
						add(out[i], r)
					}
				}
			}
			if l.Op == "" {
				for r := range out[i] {
					add(in[i], r)
				}
				continue
			}
			u, d := usesDefs(l, ar)
			dm := map[string]bool{}
			for _, r := range d {
				dm[r] = true
			}
			for r := range out[i] {
				if !dm[r] {
					add(in[i], r)
				}
			}
			for _, r := range u {
				add(in[i], r)
			}
		}
	}
	return out
}

// straight is the value-numbered meaning of a straight line of code.
type straight struct {
	reg     map[string]string
	flags   string
	effects []string
}

func (s *straight) get(r string) string {
	if v, ok := s.reg[r]; ok {
		return v
	}
	return r + "0"
}

func (s *straight) ea(o asmx.Operand) string {
	a := o.Disp
	if o.Base == "rip" {
		a += "+rip"
	} else if o.Base != "" {
		a += "+" + s.get(o.Base)
	}
	if o.Idx != "" {
		a += fmt.Sprintf("+%s×%d", s.get(o.Idx), o.Scale)
	}
	return "(" + a + ")"
}

func (s *straight) val(o asmx.Operand) string {
	switch o.Kind {
	case "imm":
		return "$" + o.Imm
	case "reg":
		if isPart(o.Reg) {
			return "low " + s.get(full(o.Reg))
		}
		return s.get(o.Reg)
	case "mem", "indmem":
		return fmt.Sprintf("load%d%s", len(s.effects), s.ea(o))
	case "indreg":
		return s.get(o.Reg)
	}
	return o.Sym
}

func (s *straight) set(o asmx.Operand, v string) {
	switch {
	case o.Kind == "mem":
		s.effects = append(s.effects, "store"+s.ea(o)+" := "+v)
	case isPart(o.Reg):
		r := full(o.Reg)
		s.reg[r] = "setlow(" + s.get(r) + ", " + v + ")"
	default:
		s.reg[o.Reg] = v
	}
}

func (s *straight) step(l *asmx.Line) {
	switch l.Op {
	case "movq", "movabs", "movabsq":
		s.set(l.Ops[1], s.val(l.Ops[0]))
		return
	case "leaq":
		s.set(l.Ops[1], s.ea(l.Ops[0]))
		return
	case "pushq":
		v := s.val(l.Ops[0])
		s.reg["rsp"] = "(" + s.get("rsp") + "-8)"
		s.effects = append(s.effects, "store("+s.reg["rsp"]+") := "+v)
		return
	}
	// any other instruction is an opaque function of what it reads
	var in []string
	for _, o := range l.Ops {
		if l.Op == "popq" || o.Kind == "reg" && (l.Op == "movsbq" || l.Op == "movzbq") {
			continue // only written
		}
		in = append(in, s.val(o))
	}
	u, d := usesDefs(l, nil)
	for _, r := range u {
		in = append(in, r+"="+s.get(r))
	}
	if strings.HasPrefix(l.Op, "set") {
		in = append(in, "flags="+s.flags)
	}
	t := l.Op + "{" + strings.Join(in, "; ") + "}"
	if len(t) > 400 {
		t = fmt.Sprintf("%s{%x}", l.Op, fnv(t))
	}
	switch l.Op {
	case "popq", "enter", "leave":
		t = fmt.Sprintf("%s@%d", t, len(s.effects))
		s.effects = append(s.effects, t)
	case "cqo", "notq", "movsbq", "movzbq", "movb":
	default:
		if !strings.HasPrefix(l.Op, "set") {
			s.flags = t
		}
	}
	if n := len(l.Ops); n > 0 && l.Op != "cmpq" && l.Op != "testq" {
		if o := l.Ops[n-1]; o.Kind == "mem" || isPart(o.Reg) {
			s.set(o, t)
		}
	}
	for i, r := range d {
		s.reg[r] = fmt.Sprintf("%s.%d", t, i)
	}
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// sameMeaning compares the text with the text printed without clean-up, straight line by straight line.
func sameMeaning(c *Ctx, rule, name, raw, text string, ar arity) {
	p, q := asmx.Parse(raw), asmx.Parse(text)
	for _, e := range q.Errs {
		c.Fail(rule, name, "", "emitted text is not an instruction: %s", e)
		return
	}
	for i := range q.Lines {
		if l := &q.Lines[i]; l.Op != "" {
			if e := encodable(l); e != "" {
				c.Fail("encodable", name, "", "the processor has no instruction `%s` (%s)", strings.Join(strings.Fields(l.Text), " "), e)
				return
			}
			c.Ok("encodable")
		}
	}
	var live []map[string]bool
	i, j := 0, 0
	for {
		a, b := straight{reg: map[string]string{}}, straight{reg: map[string]string{}}
		i0, j0 := i, j
		for i < len(p.Lines) && !isBoundary(&p.Lines[i]) {
			a.step(&p.Lines[i])
			i++
		}
		for j < len(q.Lines) && !isBoundary(&q.Lines[j]) {
			b.step(&q.Lines[j])
			j++
		}
		where := func(p *asmx.Program, from, to int) string {
			var s []string
			for ; from < to; from++ {
				s = append(s, strings.Join(strings.Fields(p.Lines[from].Text), " "))
			}
			return strings.Join(s, "; ")
		}
		bad := func(f string, x ...interface{}) {
			c.Fail(rule, name, "", "`%s` becomes `%s`: %s", where(p, i0, i), where(q, j0, j), fmt.Sprintf(f, x...))
		}
		if strings.Join(a.effects, "\n") != strings.Join(b.effects, "\n") {
			bad("the effects on memory differ")
			return
		}
		diff := false
		for r := range a.reg {
			diff = diff || a.get(r) != b.get(r)
		}
		for r := range b.reg {
			diff = diff || a.get(r) != b.get(r)
		}
		// flags do not cross labels; a conditional jump reads them
		if i < len(p.Lines) && p.Lines[i].Op != "" && p.Lines[i].Op[0] == 'j' && p.Lines[i].Op != "jmp" && a.flags != b.flags {
			bad("the flags differ")
			return
		}
		if diff {
			if live == nil {
				live = liveAt(p, ar)
				// emitted functions the program does not name take what their code reads
				for l, at := range p.Labels {
					if strings.HasPrefix(l, "clara_") && ar.named(l) < 0 {
						n := 0
						for k, r := range argRegs {
							if live[at][r] {
								n = k + 1
							}
						}
						ar[strings.TrimPrefix(l, "clara_")] = n
					}
				}
				live = liveAt(p, ar)
			}
			lo := map[string]bool{}
			if i < len(p.Lines) {
				if l := &p.Lines[i]; l.Op != "" {
					u, d := usesDefs(l, ar)
					for r := range live[i] {
						lo[r] = true
					}
					for _, r := range d {
						delete(lo, r)
					}
					for _, r := range u {
						lo[r] = true
					}
				} else {
					lo = live[i]
				}
				// a variadic callee reads the vector register count from a constant in rax
				if l := &p.Lines[i]; l.Op == "call" && ar["variadic "+l.Ops[0].Sym] > 0 {
					lo["rax"] = true
				}
			}
			for r := range lo {
				if a.get(r) != b.get(r) {
					bad("%%%s is %s instead of %s, and it is read later", r, b.get(r), a.get(r))
					return
				}
			}
		}
		if i > i0 || j > j0 {
			c.Ok(rule)
		}
		if i >= len(p.Lines) || j >= len(q.Lines) {
			if i < len(p.Lines) || j < len(q.Lines) {
				c.Fail(rule, name, "", "the text ends early or late")
			}
			return
		}
		if x, y := strings.Join(strings.Fields(p.Lines[i].Text), " "), strings.Join(strings.Fields(q.Lines[j].Text), " "); x != y {
			c.Fail(rule, name, "", "`%s` becomes `%s`", x, y)
			return
		}
		i++
		j++
	}
}

func cleanupText(c *Ctx, rule, name, src string) {
	r := compileSchema(c, src, nil)
	if r.Und != "" || r.Panic != "" || len(r.Errs) > 0 {
		c.Fail(rule, name, r.Where, "the program is not compiled: %s%s%v", r.Und, r.Panic, r.Errs)
		return
	}
	r0 := compileSchema(c, src, rawWriter(c))
	if r0.Und != "" || r0.Panic != "" || len(r0.Errs) > 0 {
		c.Fail(rule, name, r0.Where, "the program is not compiled: %s%s%v", r0.Und, r0.Panic, r0.Errs)
		return
	}
	sameMeaning(c, rule, name, r0.Text, r.Text, arityOf(parseSchema(prelude+src)))
	c.Sample(rule, name)
}

func cleanupTemplate(c *Ctx, tp *Template) {
	text, where, err := generate(c, []*FnDecl{tp.Decl}, nil)
	if err != nil {
		c.Fail(tp.Group, tp.Name, where, "%v", err)
		return
	}
	raw, where, err := generateRaw(c, []*FnDecl{tp.Decl})
	if err != nil {
		c.Fail(tp.Group, tp.Name, where, "%v", err)
		return
	}
	ar := arityOf(parseSchema(prelude))
	_, calls := collect(tp.Decl)
	for _, x := range calls {
		ar.add(x.Fn.Name, len(x.Fn.T.Params))
		if x.Fn.T.Variadic {
			ar.add(x.Fn.Name, len(x.K))
			ar["variadic "+x.Fn.Name] = 1
		}
	}
	sameMeaning(c, tp.Group, tp.Name, raw, text, ar)
	c.Sample(tp.Group, tp.Name)
}

// printing: distinct registers and instructions print as distinct registers and mnemonics the machine has.
func printing(c *Ctx, rule string) {
	known := map[string]bool{}
	for _, r := range []string{"rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"} {
		known[r] = true
	}
	for r := range fullReg {
		known[r] = true
	}
	ai.Explore(c.P, 4, func(m *ai.Machine) { m.Covered = c.Funcs; m.Edges = c.Blocks }, func(m *ai.Machine) {
		m.EvalStringer = true
		m.InitGlobals()
		byType := map[string]map[string]int64{}
		for _, mem := range c.P.Main.Members {
			nc, ok := mem.(*ssa.NamedConst)
			if !ok {
				continue
			}
			nt, ok := nc.Type().(*types.Named)
			if !ok || nc.Value.Value.Kind() != constant.Int {
				continue
			}
			v, _ := constant.Int64Val(nc.Value.Value)
			t := nt.Obj().Name()
			if byType[t] == nil {
				byType[t] = map[string]int64{}
			}
			byType[t][nc.Name()] = v
		}
		names := func(t string) []string {
			var r []string
			for n := range byType[t] {
				r = append(r, n)
			}
			sort.Strings(r)
			return r
		}
		seen := map[string]string{}
		pr := c.Anchor("reg.Print")
		if pr == nil || len(byType["reg"]) == 0 {
			c.Notes = append(c.Notes, "no register type found; printing of registers is decided through emitted text only")
			return
		}
		for _, n := range names("reg") {
			s, _ := m.Call(pr, []ai.Value{byType["reg"][n]}).(string)
			ok := strings.HasPrefix(s, "%") && known[s[1:]]
			c.Check(ok && seen[s] == "", rule, "register "+n, "", "prints as %q (%s)", s, seen[s])
			c.Check(!ok || len(n) > 3 || !known[n] || full(s[1:]) == full(n), rule, "name of register "+n, "", "prints as %q", s)
			seen[s] = "also the name of " + n
		}
	}, func(m *ai.Machine, a ai.Abort) { c.Fail(rule, "registers", m.Where(), "undecided: %s", a.Reason) })
}

func init() {
	Registry["C22"] = func(c *Ctx) {
		printing(c, "printing")
		var tps []*Template
		for _, f := range append(append(append(operatorFam(), accessFam()...), callFam()...), litFam()...) {
			for _, cx := range ctxNames {
				if tp := inCtx("expression", f.name, cx, f.mk); tp != nil {
					tps = append(tps, tp)
				}
			}
		}
		for i, f := range composedFam(c.Thorough) {
			if cx := []string{"arg3", "assign-elem", "declare"}[i%3]; i%2 == 0 || c.Thorough {
				if tp := inCtx("nested expression", f.name, cx, f.mk); tp != nil {
					tps = append(tps, tp)
				}
			}
		}
		tps = append(append(tps, stmtTemplates("statement")...), valueCallTemplates("value call")...)
		c.Parallel(len(tps), func(c *Ctx, i int) { cleanupTemplate(c, tps[i]) })
		ss := append(nestingSchemas("program", intConstructs), stmtNesting("program")...)
		ss = append(append(append(ss, matchSchemas("program")...), closureSchemas("program")...), forSchemas("program")...)
		sizes := []int{20, 70, 130, 300, 600, 1100}
		if c.Thorough {
			sizes = append(sizes, 2200, 4200)
		}
		fs := frameSchemas("large frame", sizes...)
		c.runSchemas(fs, cgOpts{Semantics: true})
		c.Min("large frame", 20)
		c.Parallel(len(ss), func(c *Ctx, i int) { cleanupText(c, ss[i].Rule, ss[i].Name, ss[i].Src) })
	}
}
