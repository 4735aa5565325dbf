package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/engine/ai"
	"verif/engine/asmx"
	"verif/engine/clara"
)

// Template is a family member: a function whose code must behave as the definitional semantics says.
type Template struct {
	Name  string
	Decl  *FnDecl
	Fns   []*Fn
	Group string
}

type cgOpts struct {
	NoRoots   map[*clara.Decl]bool
	NoCollect map[*clara.Decl]bool // functions in which no collection starts
	Semantics bool                 // events, result, locals
	Roots     bool                 // collector maps
	Prop      string
	Visits    int // how often a path may pass a label (0: the default)
}

var argRegs = []string{"rdi", "rsi", "rdx", "rcx", "r8", "r9"}

// generate returns the text for a template, or an error description.
func generate(c *Ctx, decls []*FnDecl, vars func(t *Tree)) (text string, where string, err error) {
	return generateTo(c, decls, vars, false)
}

func generateRaw(c *Ctx, decls []*FnDecl) (text string, where string, err error) {
	return generateTo(c, decls, nil, true)
}

func generateTo(c *Ctx, decls []*FnDecl, vars func(t *Tree), raw bool) (text string, where string, err error) {
	n, ok := ai.Explore(c.P, 64, func(m *ai.Machine) { m.Covered = c.Funcs; m.Edges = c.Blocks }, func(m *ai.Machine) {
		defer func() {
			if r := recover(); r != nil {
				if ap, ok := r.(ai.AbsPanic); ok {
					err = fmt.Errorf("code generation panics: %s", ai.Show(ap.V))
					where = ap.Site
					return
				}
				panic(r)
			}
		}()
		m.InitGlobals()
		t := NewTree(m)
		t.Raw = raw
		text = t.Generate(decls)
		if vars != nil {
			vars(t)
		}
	}, func(m *ai.Machine, a ai.Abort) { err = fmt.Errorf("undecided: %s", a.Reason); where = m.Where() })
	c.Traces += n
	if err == nil && (n != 1 || !ok) {
		err = fmt.Errorf("undecided: code generation is not deterministic for the template (%d partitions)", n)
	}
	return
}

// litLabel is the word a string literal's address has.
func litLabel(p *asmx.Program, quoted string) (asmx.Poly, error) {
	v, err := claraUnquote(quoted)
	if err != nil {
		return asmx.Poly{}, err
	}
	return asmx.StrAtom(v), nil
}

// claraUnquote reads a string literal: the escapes are \r \n \\ \".
func claraUnquote(q string) (string, error) {
	if len(q) < 2 || q[0] != '"' || q[len(q)-1] != '"' {
		return "", fmt.Errorf("not a string literal: %s", q)
	}
	var r []byte
	s := q[1 : len(q)-1]
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			r = append(r, s[i])
			continue
		}
		i++
		if i == len(s) {
			return "", fmt.Errorf("bad literal %s", q)
		}
		switch s[i] {
		case 'r':
			r = append(r, 13)
		case 'n':
			r = append(r, 10)
		case '\\', '"':
			r = append(r, s[i])
		default:
			return "", fmt.Errorf("bad escape in %s", q)
		}
	}
	return string(r), nil
}

func matchTarget(f *Fn, target string) bool {
	if f.T.FnKind == "External" {
		return target == f.Name
	}
	return target == "clara_"+f.Name || strings.HasPrefix(target, "clara_"+f.Name+".")
}

// runTemplate decides one template.
func runTemplate(c *Ctx, tp *Template, o cgOpts) {
	addrs := map[*Var]int64{}
	var badAddr string
	vars := collectVars(tp.Decl)
	text, where, err := generate(c, []*FnDecl{tp.Decl}, func(t *Tree) {
		for _, v := range vars {
			a, ok := t.M.Get(t.VarSym(v), "Addr").(int64)
			if !ok {
				badAddr = v.Name
				continue
			}
			addrs[v] = a
		}
	})
	rule := tp.Group
	if err != nil {
		c.Fail(rule, tp.Name, where, "%v", err)
		return
	}
	if badAddr != "" {
		c.Fail(rule, tp.Name, "", "no frame slot for %s", badAddr)
		return
	}
	p := asmx.Parse(text)
	for _, e := range p.Errs {
		c.Fail(rule, tp.Name, "", "emitted text is not an instruction: %s", e)
		return
	}
	label := ""
	for l := range p.Labels {
		if matchTarget(tp.Decl.Fn, l) {
			label = l
		}
	}
	if label == "" {
		c.Fail(rule, tp.Name, "", "no code emitted for the function")
		return
	}
	var prefix []int
	paths := 0
	for {
		w := asmx.NewWorld(prefix)
		msg := onePath(c, w, p, label, tp, o, addrs)
		paths++
		if msg != "" {
			c.Fail(rule, tp.Name, "codegen.go", "%s%s", msg, pathNote(w))
			return
		}
		var more bool
		prefix, more = w.Next()
		if !more {
			break
		}
		if paths > 400 {
			c.Fail(rule, tp.Name, "", "undecided: more than 400 paths")
			return
		}
	}
	c.Ok(rule)
	c.Sample(rule, tp.Name)
}

func pathNote(w *asmx.World) string {
	if s := w.Path(); s != "" {
		return " [when " + s + "]"
	}
	return ""
}

func collectVars(d *FnDecl) []*Var {
	r, _ := collect(d)
	return r
}

func collect(d *FnDecl) ([]*Var, []*X) {
	var r []*Var
	var calls []*X
	seen := map[*Var]bool{}
	add := func(v *Var) {
		if v != nil && !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	for _, p := range d.Params {
		add(p)
	}
	var ex func(x *X)
	ex = func(x *X) {
		if x == nil {
			return
		}
		add(x.V)
		if x.Fn != nil {
			calls = append(calls, x)
		}
		for _, k := range x.K {
			ex(k)
		}
	}
	var st func(ss []*S)
	st = func(ss []*S) {
		for _, s := range ss {
			ex(s.X)
			ex(s.L)
			for _, k := range s.Conds {
				ex(k)
			}
			for _, b := range s.Body {
				st(b)
			}
		}
	}
	st(d.Body)
	ex(d.ExprFn)
	return r, calls
}

func onePath(c *Ctx, w *asmx.World, p *asmx.Program, label string, tp *Template, o cgOpts, addrs map[*Var]int64) (msg string) {
	d := tp.Decl
	ref := &Ref{W: w, Locals: map[*Var]asmx.Poly{}, lits: func(s string) (asmx.Poly, error) { return litLabel(p, s) }}
	var rexit string
	var rret *asmx.Poly
	if e := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(asmx.Fault); ok {
					err = f
					return
				}
				panic(r)
			}
		}()
		rexit, rret = ref.Run(d)
		return nil
	}(); e != nil {
		return e.Error()
	}
	m := asmx.NewMachine(w, p)
	for i, pv := range d.Params {
		m.Reg[argRegs[i]] = w.Word(fmt.Sprintf("p%d.%s", i, pv.Name), pv.T.word())
	}
	nref := 0
	m.Callees = func(target string, val asmx.Poly) (asmx.Callee, error) {
		// conventions follow from the callee the reference calls at this point
		if target != "*" && matchTarget(fnIoob, target) {
			return asmx.Callee{NoReturn: true}, nil
		}
		k := 0
		var ev *REvent
		for i := range ref.Events {
			if ref.Events[i].Kind == "call" {
				if k == nref {
					ev = &ref.Events[i]
				}
				k++
			}
		}
		nref++
		if ev == nil {
			if rexit == "cut" {
				panic(asmx.Cut{})
			}
			return asmx.Callee{}, fmt.Errorf("calls %s, which the program does not call there", target)
		}
		res := ev.FnT.Ret.word()
		if ev.FnT.FnKind == "External" && ev.FnT.Raw && ev.FnT.Ret.K == "int" {
			res = "raw"
		}
		return asmx.Callee{Clara: ev.FnT.FnKind != "External", Result: res}, nil
	}
	cnt := 0
	m.ResultName = func(n int, target string) string { cnt++; return fmt.Sprintf("r%d", cnt) }
	exit := ""
	if e := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				switch f := r.(type) {
				case asmx.Fault:
					err = f
				case asmx.Cut:
					exit = "cut"
				default:
					panic(r)
				}
			}
		}()
		exit = m.Run(label)
		return nil
	}(); e != nil {
		return e.Error()
	}
	if o.Semantics {
		if msg := compareSem(w, ref, m, d, rexit, rret, exit, addrs, p); msg != "" {
			return msg
		}
	}
	if o.Roots {
		if msg := compareRoots(c, w, ref, m, d, addrs, p); msg != "" {
			return msg
		}
	}
	return ""
}

func fnPoly(w *asmx.World, v asmx.Poly, p *asmx.Program, ref asmx.Poly) bool {
	// a function reference: &label of the function the reference names
	a, ok := ref.SingleAtom()
	if !ok || !strings.HasPrefix(a, "&") {
		return false
	}
	b, ok := v.SingleAtom()
	if !ok || !strings.HasPrefix(b, "&") {
		return false
	}
	return matchTarget(&Fn{Name: a[1:], T: &Ty{}}, b[1:])
}

func wordEq(w *asmx.World, p *asmx.Program, got, want asmx.Poly) bool {
	return w.Eq(got, want) || fnPoly(w, got, p, want)
}

const frame = -8 // rbp's offset from the entry stack pointer

func compareSem(w *asmx.World, ref *Ref, m *asmx.Machine, d *FnDecl, rexit string, rret *asmx.Poly, exit string, addrs map[*Var]int64, p *asmx.Program) string {
	// distinct slots inside the frame
	used := map[int64]*Var{}
	for v, a := range addrs {
		if a <= 0 || a%8 != 0 {
			return fmt.Sprintf("variable %s has frame slot %d", v.Name, a)
		}
		if o, ok := used[a]; ok && o != v {
			return fmt.Sprintf("variables %s and %s share a frame slot", v.Name, o.Name)
		}
		used[a] = v
	}
	n := len(ref.Events)
	if len(m.Events) < n {
		n = len(m.Events)
	}
	for i := 0; i < n; i++ {
		re, me := ref.Events[i], m.Events[i]
		if re.Kind != me.Kind {
			return fmt.Sprintf("effect %d is a %s where the program performs a %s (`%s`)", i+1, me.Kind, re.Kind, strings.TrimSpace(me.Line))
		}
		switch re.Kind {
		case "store":
			if !wordEq(w, p, me.Addr, re.Addr) {
				return fmt.Sprintf("stores to %s instead of %s", w.Subst(me.Addr), w.Subst(re.Addr))
			}
			if !wordEq(w, p, me.Val, re.Val) {
				return fmt.Sprintf("stores %s instead of %s", w.Subst(me.Val), w.Subst(re.Val))
			}
			if me.Bytes {
				return "stores a byte instead of a word"
			}
		case "call":
			if re.Fn != nil {
				if !matchTarget(re.Fn, me.Target) {
					return fmt.Sprintf("calls %s instead of %s", me.Target, re.Fn.Name)
				}
			} else if me.Target != "*" || !wordEq(w, p, me.TargetVal, re.Callee) {
				return fmt.Sprintf("calls %s (%s) instead of the function value %s", me.Target, me.TargetVal, re.Callee)
			}
			for j, a := range re.Args {
				got := me.Regs[argRegs[j]]
				if !wordEq(w, p, got, a) {
					return fmt.Sprintf("argument %d of %s is %s instead of %s", j+1, fnName(re), w.Subst(got), w.Subst(a))
				}
			}
			if re.FnT.Variadic {
				if v, ok := me.Regs["rax"].IsConst(); !ok || v&0xff != 0 {
					return "variadic call without a vector register count"
				}
			}
			for v, want := range re.Locals {
				got, ok := me.LocalWord(frame, addrs[v])
				if !ok || !wordEq(w, p, got, want) {
					return fmt.Sprintf("variable %s holds %s instead of %s when %s is called", v.Name, got, want, fnName(re))
				}
			}
		}
	}
	if rexit == "cut" || exit == "cut" {
		if exit != rexit && len(m.Events) == len(ref.Events) && rexit != "cut" {
			return "code loops where the program does not"
		}
		if rexit != "cut" {
			return "code loops where the program does not"
		}
		if len(m.Events) < len(ref.Events) {
			return fmt.Sprintf("the code leaves after %d of %d effects", len(m.Events), len(ref.Events))
		}
		return ""
	}
	if len(m.Events) != len(ref.Events) {
		return fmt.Sprintf("%d effects instead of %d", len(m.Events), len(ref.Events))
	}
	want := "skip"
	if d.ExtRet {
		want = "ret"
	}
	if rexit == "noreturn" {
		want = "noreturn"
	}
	if exit != want {
		return fmt.Sprintf("leaves by %q instead of %q", exit, want)
	}
	if rret != nil && d.Fn.T.Ret.K != "nothing" {
		if !wordEq(w, p, m.Reg["rax"], *rret) {
			return fmt.Sprintf("returns %s instead of %s", w.Subst(m.Reg["rax"]), w.Subst(*rret))
		}
	}
	return ""
}

func fnName(e REvent) string {
	if e.Fn != nil {
		return e.Fn.Name
	}
	return "the function value"
}

// rootOffsets reads an emitted root map: frame word offsets.
func rootOffsets(p *asmx.Program, label string) (map[int64]bool, error) {
	ws, ok := p.Words(label)
	if !ok || len(ws) == 0 {
		return nil, fmt.Errorf("root map %s is not emitted", label)
	}
	n, err := untagText(ws[0])
	if err != nil {
		return nil, err
	}
	if int(n) != len(ws)-1 {
		return nil, fmt.Errorf("root map %s announces %d roots and lists %d", label, n, len(ws)-1)
	}
	r := map[int64]bool{}
	for _, s := range ws[1:] {
		o, err := untagText(s)
		if err != nil {
			return nil, err
		}
		if r[o] {
			return nil, fmt.Errorf("root map %s lists slot %d twice", label, o)
		}
		r[o] = true
	}
	return r, nil
}

func untagText(s string) (int64, error) {
	v, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		return 0, fmt.Errorf("root map word %q", s)
	}
	if v&1 == 0 {
		return 0, fmt.Errorf("root map word %q is not a tagged integer", s)
	}
	return v >> 1, nil
}

func compareRoots(c *Ctx, w *asmx.World, ref *Ref, m *asmx.Machine, d *FnDecl, addrs map[*Var]int64, p *asmx.Program) string {
	byAddr := map[int64]*Var{}
	maxLocal := int64(0)
	for v, a := range addrs {
		byAddr[a] = v
		if a > maxLocal {
			maxLocal = a
		}
	}
	ci := -1
	for i := range m.Events {
		e := &m.Events[i]
		if e.Kind != "call" {
			continue
		}
		ci++
		if !e.HasMap {
			continue
		}
		roots, err := rootOffsets(p, e.Map)
		if err != nil {
			return err.Error()
		}
		if e.NoCollect {
			continue
		}
		// every listed root holds an object reference of a live location
		var offs []int64
		for o := range roots {
			offs = append(offs, o)
		}
		sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
		for _, o := range offs {
			off := int64(frame) - 8*o
			if 8*o > e.Depth || o <= 0 {
				return fmt.Sprintf("root map at call %d lists frame word %d, outside the live frame of %d words", ci+1, o, e.Depth/8)
			}
			v, ok := e.Stack[off]
			if !ok || asmx.IsGarbage(v) {
				return fmt.Sprintf("root map at call %d lists frame word %d, which is not initialised", ci+1, o)
			}
			if !isRef(w, v) && !castRef(w, v) {
				return fmt.Sprintf("root map at call %d lists frame word %d, which holds %s, not an object reference", ci+1, o, v)
			}
			if lv := byAddr[8*o]; lv != nil && ci < len(callEvents(ref)) {
				re := callEvents(ref)[ci]
				if re.Locals != nil {
					if _, in := re.Locals[lv]; !in {
						return fmt.Sprintf("root map at call %d lists variable %s, which is out of scope", ci+1, lv.Name)
					}
				}
			}
		}
		// every reference read later is listed
		for off := range e.ReadLater() {
			v, ok := e.Stack[off]
			if !ok || !mustRoot(w, v) {
				continue
			}
			o := (int64(frame) - off) / 8
			if o <= 0 {
				continue
			}
			if !roots[o] {
				return fmt.Sprintf("the object reference %s at frame word %d is used after call %d (`%s`) but is not in that call's root map %s",
					v, o, ci+1, strings.Join(strings.Fields(e.Line), " "), e.Map)
			}
		}
	}
	return ""
}

func callEvents(r *Ref) []REvent {
	var es []REvent
	for _, e := range r.Events {
		if e.Kind == "call" {
			es = append(es, e)
		}
	}
	return es
}

// isRef: the word is an object reference (or the address of static data or code, which the collector skips).
// castRef: a word of unknown kind, which the library has cast to a reference.
func castRef(w *asmx.World, v asmx.Poly) bool {
	a, ok := v.SingleAtom()
	return ok && w.Casts && !w.Info(a).Bool && !w.Info(a).R63
}

func isRef(w *asmx.World, v asmx.Poly) bool {
	if a, ok := v.SingleAtom(); ok {
		return w.Info(a).Ptr || strings.HasPrefix(a, "&")
	}
	if c, ok := v.IsConst(); ok {
		return c == 0
	}
	return false
}

// mustRoot: the word designates a heap object (possibly its interior).
func mustRoot(w *asmx.World, v asmx.Poly) bool {
	for _, mo := range v.Monos() {
		for _, a := range strings.Split(mo, "*") {
			if a != "" && w.Info(a).Ptr {
				return true
			}
		}
	}
	return false
}
