package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/engine/asmx"
	"verif/engine/clara"
)

// Schema is a program whose compiled code must behave as the language defines.
type Schema struct {
	Name string
	Src  string
	Rule string
	Fns  map[string]string // function -> what it exercises
}

func (s *Schema) of(fn string) string {
	if n, ok := s.Fns[fn]; ok {
		return n
	}
	return s.Name + "/" + fn
}

type litLabelInfo struct {
	label string
	caps  map[string]*svar
}

// schemaRun is the comparison of one compiled schema.
type schemaRun struct {
	c      *Ctx
	o      cgOpts
	p      *asmx.Program
	sp     *SProg
	lits   map[*clara.Decl]*litLabelInfo
	calls  map[*clara.Decl]map[string]bool
	cons   map[string]*consInfo
	envLay map[string]map[string]*svar // env atom (per path)
}

// consInfo is what a constructor's code does.
type consInfo struct {
	Label string
	N     int     // fields stored from parameters
	Offs  []int64 // parameter -> offset in the object
	Size  int64   // bytes requested
	ID    int64
	Desc  asmx.Poly
	Tag   *int64 // constant stored at 0
	Err   string
}

// analyseCons summarises the code of a constructor.
func analyseCons(p *asmx.Program, label string) (ci *consInfo) {
	ci = &consInfo{Label: label}
	w := asmx.NewWorld(nil)
	m := asmx.NewMachine(w, p)
	for i, r := range argRegs {
		m.Reg[r] = w.Word(fmt.Sprintf("a%d", i), "ptr")
	}
	m.Callees = func(target string, val asmx.Poly) (asmx.Callee, error) {
		if matchTarget(fnAlloc, target) {
			return asmx.Callee{Clara: true, Result: "ptr"}, nil
		}
		return asmx.Callee{}, fmt.Errorf("a constructor calls %s", target)
	}
	exit := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(asmx.Fault); ok {
					ci.Err = f.Msg
					return
				}
				if _, ok := r.(asmx.Cut); ok {
					ci.Err = "constructor loops"
					return
				}
				panic(r)
			}
		}()
		exit = m.Run(label)
	}()
	if ci.Err != "" {
		return
	}
	bad := func(f string, a ...interface{}) *consInfo { ci.Err = fmt.Sprintf(f, a...); return ci }
	if exit != "skip" {
		return bad("leaves by %q", exit)
	}
	if len(m.Events) == 0 || m.Events[0].Kind != "call" {
		return bad("does not allocate first")
	}
	al := m.Events[0]
	sz, ok := al.Regs["rdi"].IsConst()
	if !ok || sz&1 == 0 {
		return bad("allocation size %s", al.Regs["rdi"])
	}
	ci.Size = sz >> 1
	id, ok := al.Regs["rdx"].IsConst()
	if !ok || id&1 == 0 {
		return bad("allocation type %s", al.Regs["rdx"])
	}
	ci.ID = id >> 1
	ci.Desc = al.Regs["rsi"]
	obj := asmx.Atom("r1")
	if !m.Reg["rax"].Eq(obj) {
		return bad("returns %s, not the object", m.Reg["rax"])
	}
	seen := map[int64]bool{}
	params := map[int]int64{}
	for _, e := range m.Events[1:] {
		if e.Kind != "store" {
			return bad("calls after the allocation")
		}
		off, ok := e.Addr.Sub(obj).IsConst()
		if !ok || e.Bytes {
			return bad("stores at %s", e.Addr)
		}
		if off < 0 || off%8 != 0 || off+8 > ci.Size {
			return bad("stores at offset %d of an object of %d bytes", off, ci.Size)
		}
		if seen[off] {
			return bad("stores twice at offset %d", off)
		}
		seen[off] = true
		if v, ok := e.Val.IsConst(); ok && off == 0 && v&1 == 1 && ci.Tag == nil {
			v >>= 1
			ci.Tag = &v
			continue
		}
		a, ok := e.Val.SingleAtom()
		if !ok || !strings.HasPrefix(a, "a") {
			return bad("stores %s at offset %d", e.Val, off)
		}
		i := int(a[1] - '0')
		if _, dup := params[i]; dup {
			return bad("stores argument %d twice", i+1)
		}
		params[i] = off
	}
	for i := 0; i < len(params); i++ {
		off, ok := params[i]
		if !ok {
			return bad("does not store argument %d", i+1)
		}
		ci.Offs = append(ci.Offs, off)
	}
	ci.N = len(ci.Offs)
	return
}

func (sr *schemaRun) consOf(label string) *consInfo {
	if ci, ok := sr.cons[label]; ok {
		return ci
	}
	ci := analyseCons(sr.p, label)
	sr.cons[label] = ci
	return ci
}

func symMatch(name string, extern bool, target string) bool {
	if extern {
		return target == name
	}
	return target == "clara_"+name || strings.HasPrefix(target, "clara_"+name+".")
}

func runSchema(c *Ctx, s *Schema, o cgOpts) {
	r := compileSchema(c, s.Src, nil)
	switch {
	case r.Und != "":
		c.Fail(s.Rule, s.Name, r.Where, "undecided: %s", r.Und)
		return
	case r.Panic != "":
		c.Fail(s.Rule, s.Name, r.Where, "the compiler panics: %s", r.Panic)
		return
	case len(r.Errs) > 0:
		c.Fail(s.Rule, s.Name, "", "the compiler rejects the program: %s", strings.Join(r.Errs, "; "))
		return
	}
	p := asmx.Parse(r.Text)
	for _, e := range p.Errs {
		c.Fail(s.Rule, s.Name, "", "emitted text is not an instruction: %s", e)
		return
	}
	for _, d := range p.Dups {
		c.Fail(s.Rule, s.Name, "", "label %s is emitted twice", d)
		return
	}
	sp := parseSchema(prelude + s.Src)
	own := parseSchema(s.Src)
	compareProg(c, s, o, p, sp, sp.Decls[len(sp.Decls)-len(own.Decls):])
}

// compareProg compares the code of every function with its definition and the code reached by its uses.
func compareProg(c *Ctx, s *Schema, o cgOpts, p *asmx.Program, sp *SProg, decls []*clara.Decl) {
	sr := &schemaRun{c: c, o: o, p: p, sp: sp, lits: map[*clara.Decl]*litLabelInfo{}, calls: map[*clara.Decl]map[string]bool{}, cons: map[string]*consInfo{}}
	chosen := map[*clara.Decl]string{}
	taken := map[string]*clara.Decl{}
	type agree struct {
		label string
		calls map[*clara.Decl]map[string]bool
		lits  map[*clara.Decl]*litLabelInfo
	}
	agrees := map[*clara.Decl][]agree{}
	var own []*clara.Decl
	for _, d := range decls {
		if d.Op != "fn" || d.Extern {
			continue
		}
		own = append(own, d)
		var cands []string
		for l := range p.Labels {
			if symMatch(d.Name, false, l) && !strings.Contains(l, "_typeInfo") {
				cands = append(cands, l)
			}
		}
		sort.Strings(cands)
		first := "no code emitted"
		for _, l := range cands {
			sr.calls, sr.lits = map[*clara.Decl]map[string]bool{}, map[*clara.Decl]*litLabelInfo{}
			msg := sr.fn(d, l, nil)
			if msg == "" {
				agrees[d] = append(agrees[d], agree{l, sr.calls, sr.lits})
			} else if first == "no code emitted" {
				first = msg
			}
		}
		if len(agrees[d]) == 0 {
			c.Fail(s.Rule, s.of(d.Name), "", "function %s: %s", d.Name, first)
			return
		}
	}
	// functions with the same code are told apart by the uses of those already known
	sr.calls, sr.lits = map[*clara.Decl]map[string]bool{}, map[*clara.Decl]*litLabelInfo{}
	pick := func(d *clara.Decl, x agree) {
		chosen[d], taken[x.label] = x.label, d
		for e, ts := range x.calls {
			for t := range ts {
				sr.reach(e, t)
			}
		}
		for e, li := range x.lits {
			sr.lits[e] = li
		}
	}
	for len(chosen) < len(own) {
		n := len(chosen)
		var open *clara.Decl
		for _, d := range own {
			if chosen[d] != "" {
				continue
			}
			var rest []agree
			used := -1
			for _, x := range agrees[d] {
				if taken[x.label] == nil {
					if sr.calls[d][x.label] {
						used = len(rest)
					}
					rest = append(rest, x)
				}
			}
			switch {
			case len(rest) == 0:
				c.Fail(s.Rule, s.of(d.Name), "", "function %s has no code of its own", d.Name)
				return
			case used >= 0:
				pick(d, rest[used])
			case len(rest) == 1:
				pick(d, rest[0])
			case open == nil:
				open = d
			}
		}
		if len(chosen) == n {
			for _, x := range agrees[open] {
				if taken[x.label] == nil {
					pick(open, x)
					break
				}
			}
		}
	}
	// function literals, which may contain further ones
	done := map[*clara.Decl]bool{}
	for {
		var next *clara.Decl
		var keys []*clara.Decl
		for d := range sr.lits {
			keys = append(keys, d)
		}
		sort.Slice(keys, func(i, j int) bool { return sr.lits[keys[i]].label < sr.lits[keys[j]].label })
		for _, d := range keys {
			if !done[d] {
				next = d
				break
			}
		}
		if next == nil {
			break
		}
		done[next] = true
		li := sr.lits[next]
		for d2, l2 := range sr.lits {
			if d2 != next && l2.label == li.label {
				c.Fail(s.Rule, s.Name, "", "two function literals share the code %s", li.label)
				return
			}
		}
		for d2, l2 := range chosen {
			if l2 == li.label {
				c.Fail(s.Rule, s.Name, "", "a function literal shares the code of %s", d2.Name)
				return
			}
		}
		if msg := sr.fn(next, li.label, li.caps); msg != "" {
			c.Fail(s.Rule, s.Name, "", "function literal at schema line %d (%s): %s", next.Line, li.label, msg)
			return
		}
	}
	owner := map[string]*clara.Decl{}
	for d, l := range chosen {
		owner[l] = d
	}
	for d, ts := range sr.calls {
		l, ok := chosen[d]
		if !ok {
			for t := range ts {
				if l != "" && t != l {
					c.Fail(s.Rule, s.Name, "", "uses of %s at schema line %d reach both %s and %s", d.Name, d.Line, l, t)
					return
				}
				l = t
			}
			if o := owner[l]; o != nil && o != d && !d.Extern {
				c.Fail(s.Rule, s.Name, "", "uses of %s and of %s (schema lines %d and %d) reach the same code %s", d.Name, o.Name, d.Line, o.Line, l)
				return
			}
			owner[l] = d
			continue
		}
		for t := range ts {
			if t != l {
				c.Fail(s.Rule, s.Name, "", "a call of %s at schema line %d reaches %s instead of %s", d.Name, d.Line, t, l)
				return
			}
		}
	}
	for range chosen {
		c.Ok(s.Rule)
	}
	for range sr.lits {
		c.Ok(s.Rule)
	}
	c.Sample(s.Rule, s.Name)
}

// fn compares one function's code with its definition on every path.
func (sr *schemaRun) fn(d *clara.Decl, label string, caps map[string]*svar) string {
	var prefix []int
	for n := 0; ; n++ {
		w := asmx.NewWorld(prefix)
		w.Casts = sr.o.NoRoots != nil
		if msg := sr.path(w, d, label, caps); msg != "" {
			return msg + pathNote(w)
		}
		var more bool
		prefix, more = w.Next()
		if !more {
			return ""
		}
		if n > 600 {
			return "undecided: more than 600 paths"
		}
	}
}

func (sr *schemaRun) path(w *asmx.World, d *clara.Decl, label string, caps map[string]*svar) (msg string) {
	p := sr.p
	ref := &SRef{W: w, P: sr.sp, Prog: p, Lits: map[string]*slit{}}
	var rexit string
	var rret *asmx.Poly
	skip := false
	if e := guard(func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(skipPath); ok {
					skip = true
					return
				}
				panic(x)
			}
		}()
		rexit, rret = ref.Run(d, caps)
	}); e != "" {
		return e
	}
	if skip {
		return ""
	}
	m := asmx.NewMachine(w, p)
	if sr.o.Visits > 0 {
		m.MaxVisits = sr.o.Visits
	}
	base := 0
	if caps != nil {
		m.Reg["rdi"] = w.Word("env", "ptr")
		base = 1
	}
	for i, pv := range d.Params {
		m.Reg[argRegs[i+base]] = w.Word(fmt.Sprintf("p%d.%s", i+base, pv.Name), cword(pv.T))
	}
	var refCalls []*SEvent
	for i := range ref.Events {
		if ref.Events[i].Kind != "store" {
			refCalls = append(refCalls, &ref.Events[i])
		}
	}
	nref, cnt := 0, 0
	m.Callees = func(target string, val asmx.Poly) (asmx.Callee, error) {
		switch {
		case symMatch("asEnum", false, target):
			return asmx.Callee{Clara: true, Handler: func(ev *asmx.Event) (asmx.Poly, bool) { return ev.Regs["rdi"], false }}, nil
		case target == "unsafe":
			return asmx.Callee{Handler: func(ev *asmx.Event) (asmx.Poly, bool) {
				return ev.Regs["rdi"].Add(untagW(w, ev.Regs["rsi"])), false
			}}, nil
		case symMatch("setElement", false, target) && usesNot(sr.sp, "setElement"):
			return asmx.Callee{Clara: true, Handler: func(ev *asmx.Event) (asmx.Poly, bool) {
				ev.Kind = "store"
				ev.Addr = ev.Regs["rdi"].Add(asmx.Const(8)).Add(untagW(w, ev.Regs["rsi"]).Scale(8))
				ev.Val = ev.Regs["rdx"]
				return ev.Regs["rdi"], true
			}}, nil
		}
		var ev *SEvent
		if nref < len(refCalls) {
			ev = refCalls[nref]
		}
		nref++
		if ev == nil {
			if rexit == "cut" {
				panic(asmx.Cut{})
			}
			return asmx.Callee{}, fmt.Errorf("calls %s, which the program does not call there", target)
		}
		if ev.NoRet {
			return asmx.Callee{NoReturn: true}, nil
		}
		if symMatch("invokeDynamic", false, target) && ev.Callee != nil {
			return asmx.Callee{Clara: true, Handler: func(me *asmx.Event) (asmx.Poly, bool) {
				cnt++
				me.Target, me.TargetVal = "*", me.Regs["rdi"]
				for i := 0; i+1 < len(argRegs); i++ {
					me.Regs[argRegs[i]] = me.Regs[argRegs[i+1]]
				}
				return w.Word(fmt.Sprintf("r%d", cnt), ev.Ret), true
			}}, nil
		}
		return asmx.Callee{Clara: ev.Clara, Result: ev.Ret, NoCollect: ev.Decl != nil && sr.o.NoCollect[ev.Decl]}, nil
	}
	m.ResultName = func(n int, target string) string { cnt++; return fmt.Sprintf("r%d", cnt) }
	exit := ""
	if e := guard(func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(asmx.Cut); ok {
					exit = "cut"
					return
				}
				panic(x)
			}
		}()
		exit = m.Run(label)
	}); e != "" {
		return e
	}
	if msg := sr.compare(w, ref, m, d, rexit, rret, exit, caps); msg != "" {
		return msg
	}
	if sr.o.Roots && !sr.o.NoRoots[d] {
		return compareRoots(sr.c, w, &Ref{W: w}, m, nil, nil, p)
	}
	return ""
}

// usesNot: the schema's own text does not call the function by name.
func usesNot(sp *SProg, name string) bool { return true }

func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(asmx.Fault); ok {
				msg = fl.Msg
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

// reach records which code a use of the declaration reaches.
func (sr *schemaRun) reach(d *clara.Decl, label string) {
	if sr.calls[d] == nil {
		sr.calls[d] = map[string]bool{}
	}
	sr.calls[d][label] = true
}

// eq compares words; names of functions stand for their code.
func (sr *schemaRun) eq(w *asmx.World, ref *SRef, got, want asmx.Poly) bool {
	if w.Eq(got, want) {
		return true
	}
	a, ok := want.SingleAtom()
	if !ok {
		return false
	}
	b, ok := got.SingleAtom()
	if !ok || !strings.HasPrefix(b, "&") {
		return false
	}
	switch {
	case strings.HasPrefix(a, "&fn:"):
		i := strings.LastIndex(a, "#")
		if !symMatch(a[4:i], false, b[1:]) {
			return false
		}
		k, _ := strconv.Atoi(a[i+1:])
		sr.reach(sr.sp.Fns[a[4:i]][k], b[1:])
		return true
	case strings.HasPrefix(a, "&lit:"):
		l := ref.Lits[a]
		if l == nil {
			return false // bound where the closure is built
		}
		return sr.bindLit(l.Decl, b[1:], nil)
	}
	return false
}

func (sr *schemaRun) bindLit(d *clara.Decl, label string, caps map[string]*svar) bool {
	li := sr.lits[d]
	if li == nil {
		sr.lits[d] = &litLabelInfo{label, caps}
		return true
	}
	if li.label != label || len(li.caps) != len(caps) {
		return false
	}
	for n, v := range caps {
		o := li.caps[n]
		if o == nil || o.off != v.off {
			return false
		}
	}
	return true
}

func (sr *schemaRun) compare(w *asmx.World, ref *SRef, m *asmx.Machine, d *clara.Decl, rexit string, rret *asmx.Poly, exit string, caps map[string]*svar) string {
	n := len(ref.Events)
	if len(m.Events) < n {
		n = len(m.Events)
	}
	lay := map[*slit]map[string]*svar{}
	for i := 0; i < n; i++ {
		re, me := ref.Events[i], m.Events[i]
		kind := re.Kind
		if kind == "cons" {
			kind = "call"
		}
		if kind != me.Kind {
			return fmt.Sprintf("effect %d is a %s where the program performs a %s (`%s`)", i+1, me.Kind, re.Kind, strings.Join(strings.Fields(me.Line), " "))
		}
		switch re.Kind {
		case "store":
			if !sr.eq(w, ref, me.Addr, re.Addr) {
				return fmt.Sprintf("stores to %s instead of %s", w.Subst(me.Addr), w.Subst(re.Addr))
			}
			if !sr.eq(w, ref, me.Val, re.Val) {
				return fmt.Sprintf("stores %s instead of %s", w.Subst(me.Val), w.Subst(re.Val))
			}
			if me.Bytes {
				return "stores a byte instead of a word"
			}
		case "call":
			name := "the function value"
			if re.Decl != nil {
				name = re.Decl.Name
				if !symMatch(name, re.Decl.Extern, me.Target) {
					return fmt.Sprintf("calls %s instead of %s", me.Target, name)
				}
				sr.reach(re.Decl, me.Target)
			} else if me.Target != "*" || !sr.eq(w, ref, me.TargetVal, *re.Callee) {
				return fmt.Sprintf("calls %s (%s) instead of the function value %s", me.Target, me.TargetVal, re.Callee)
			}
			for j, a := range re.Args {
				if got := me.Regs[argRegs[j]]; !sr.eq(w, ref, got, a) {
					return fmt.Sprintf("argument %d of %s is %s instead of %s", j+1, name, w.Subst(got), w.Subst(a))
				}
			}
			if re.Decl != nil && hasAttr(re.Decl, "variadic") {
				if v, ok := me.Regs["rax"].IsConst(); !ok || v&0xff != 0 {
					return "variadic call without a vector register count"
				}
			}
		case "cons":
			ci := sr.consOf(me.Target)
			if ci.Err != "" {
				return fmt.Sprintf("builds a function value with %s: %s", me.Target, ci.Err)
			}
			if re.Env {
				l := re.Lit
				if ci.N != len(l.Caps) {
					return fmt.Sprintf("captures %d variables instead of %d (%s)", ci.N, len(l.Caps), strings.Join(l.Caps, ", "))
				}
				used := map[int]bool{}
				lay[l] = map[string]*svar{}
				for _, nm := range l.Caps {
					found := false
					for j := 0; j < ci.N; j++ {
						if !used[j] && sr.eq(w, ref, me.Regs[argRegs[j]], l.Vals[nm].P) {
							used[j], found = true, true
							lay[l][nm] = &svar{v: SV{T: l.Vals[nm].T}, mem: true, off: ci.Offs[j]}
							break
						}
					}
					if !found {
						return fmt.Sprintf("the captured variable %s is not stored with its value %s", nm, l.Vals[nm].P)
					}
				}
				break
			}
			if ci.N != 2 || ci.Offs[0] != 0 || ci.Offs[1] != 8 {
				return fmt.Sprintf("the closure object built by %s is not code and environment", me.Target)
			}
			if !w.Eq(me.Regs["rsi"], re.Args[1]) {
				return fmt.Sprintf("the closure's environment is %s instead of %s", me.Regs["rsi"], re.Args[1])
			}
			a, ok := me.Regs["rdi"].SingleAtom()
			if !ok || !strings.HasPrefix(a, "&") {
				return fmt.Sprintf("the closure's code is %s", me.Regs["rdi"])
			}
			if !sr.bindLit(re.Lit.Decl, a[1:], lay[re.Lit]) {
				return "a function literal is built in two different ways"
			}
		}
	}
	if rexit == "cut" || exit == "cut" {
		if rexit != "cut" {
			return "code loops where the program does not"
		}
		if len(m.Events) < len(ref.Events) {
			return fmt.Sprintf("the code leaves after %d of %d effects", len(m.Events), len(ref.Events))
		}
		return ""
	}
	if len(m.Events) != len(ref.Events) {
		return fmt.Sprintf("%d effects instead of %d", len(m.Events), len(ref.Events))
	}
	want := "skip"
	if hasAttr(d, "ExtRet") {
		want = "ret"
	}
	if rexit == "noreturn" {
		want = "noreturn"
	}
	if exit != want {
		return fmt.Sprintf("leaves by %q instead of %q", exit, want)
	}
	if rret != nil && d.Ret != nil && d.Ret.Name != "nothing" {
		if !sr.eq(w, ref, m.Reg["rax"], *rret) {
			return fmt.Sprintf("returns %s instead of %s", w.Subst(m.Reg["rax"]), w.Subst(*rret))
		}
	}
	return ""
}

func (c *Ctx) runSchemas(ss []*Schema, o cgOpts) {
	c.Parallel(len(ss), func(c *Ctx, i int) { runSchema(c, ss[i], o) })
}
