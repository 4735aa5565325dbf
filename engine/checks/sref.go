package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/engine/asmx"
	"verif/engine/clara"
)

// Definitional semantics of Clara over abstract words, on the language's own syntax trees.

type ctype = clara.Type

func named(n string) *ctype { return &ctype{K: "named", Name: n} }

var (
	cInt, cBool, cString, cNothing, cPointer = named("int"), named("bool"), named("string"), named("nothing"), named("pointer")
)

func cword(t *ctype) string {
	if t == nil {
		return "raw"
	}
	if t.K == "named" {
		switch t.Name {
		case "int", "bool":
			return t.Name
		case "nothing", "pointer":
			return "raw"
		}
	}
	return "ptr"
}

func ctEq(a, b *ctype) bool { return a.String() == b.String() }

// SProg is a parsed schema.
type SProg struct {
	Decls []*clara.Decl
	Fns   map[string][]*clara.Decl
	Types map[string]*clara.Decl
	Cons  map[string]*clara.Decl // enum constructor -> enum
}

func parseSchema(src string) *SProg {
	ds, err := clara.Parse(src, "schema")
	if err != nil {
		panic("schema: " + err.Error() + "\n" + src)
	}
	return indexProg(ds)
}

func indexProg(ds []*clara.Decl) *SProg {
	p := &SProg{Decls: ds, Fns: map[string][]*clara.Decl{}, Types: map[string]*clara.Decl{}, Cons: map[string]*clara.Decl{}}
	p.Fns["printf"] = []*clara.Decl{{Op: "fn", Name: "printf", Extern: true, Attrs: []string{"RawValues", "variadic"}, Params: []clara.Param{{Name: "s", T: cString}}}}
	for _, d := range ds {
		switch d.Op {
		case "fn":
			p.Fns[d.Name] = append(p.Fns[d.Name], d)
		case "struct":
			p.Types[d.Name] = d
			n := strings.ToUpper(d.Name[:1]) + d.Name[1:]
			p.Fns[n] = append(p.Fns[n], &clara.Decl{Op: "cons", Name: n, TParams: d.TParams, Params: d.Params, Ret: selfType(d)})
		case "enum":
			p.Types[d.Name] = d
			for _, c := range d.Cons {
				p.Cons[c.Name] = d
				p.Fns[c.Name] = append(p.Fns[c.Name], &clara.Decl{Op: "cons", Name: c.Name, TParams: d.TParams, Params: c.Params, Ret: selfType(d)})
			}
		}
	}
	return p
}

func selfType(d *clara.Decl) *ctype {
	t := named(d.Name)
	for _, p := range d.TParams {
		t.Args = append(t.Args, named(p))
	}
	return t
}

func subst(t *ctype, b map[string]*ctype) *ctype {
	if t == nil || len(b) == 0 {
		return t
	}
	r := *t
	if t.K == "named" && len(t.Args) == 0 {
		if x, ok := b[t.Name]; ok && x != nil {
			return x
		}
		return t
	}
	r.Args, r.Params = nil, nil
	for _, a := range t.Args {
		r.Args = append(r.Args, subst(a, b))
	}
	for _, a := range t.Params {
		r.Params = append(r.Params, subst(a, b))
	}
	r.Elem, r.Ret = subst(t.Elem, b), subst(t.Ret, b)
	return &r
}

// unify binds the type parameters in b (keys present, nil when free).
func unify(p, a *ctype, b map[string]*ctype) bool {
	if p == nil {
		p = cNothing
	}
	if a == nil {
		a = cNothing
	}
	if p.K == "named" && len(p.Args) == 0 {
		if x, ok := b[p.Name]; ok {
			if x == nil {
				b[p.Name] = a
				return true
			}
			return ctEq(x, a)
		}
	}
	if p.K != a.K || p.Name != a.Name || len(p.Args) != len(a.Args) || len(p.Params) != len(a.Params) {
		return false
	}
	for i := range p.Args {
		if !unify(p.Args[i], a.Args[i], b) {
			return false
		}
	}
	for i := range p.Params {
		if !unify(p.Params[i], a.Params[i], b) {
			return false
		}
	}
	switch p.K {
	case "array":
		return unify(p.Elem, a.Elem, b)
	case "fn":
		return unify(p.Ret, a.Ret, b)
	}
	return true
}

// SV is an abstract value with its type.
type SV struct {
	P asmx.Poly
	T *ctype
}

// SEvent is an effect of the definitional semantics.
type SEvent struct {
	Kind   string // call store cons
	Decl   *clara.Decl
	Callee *asmx.Poly
	Args   []asmx.Poly
	Addr   asmx.Poly
	Val    asmx.Poly
	Ret    string // word kind of the result
	Clara  bool
	NoRet  bool
	Lit    *slit // cons events of a function literal
	Env    bool  // environment object
	Desc   string
}

// slit is a function literal evaluation.
type slit struct {
	Decl *clara.Decl
	Caps []string
	Vals map[string]SV
}

type svar struct {
	v   SV
	mem bool // captured: word of the environment
	off int64
}

type skipPath struct{}

// SRef evaluates a function.
type SRef struct {
	W      *asmx.World
	P      *SProg
	Prog   *asmx.Program
	vars   []map[string]*svar
	Events []SEvent
	calls  int
	env    asmx.Poly
	cell   map[string]asmx.Poly
	tps    map[string]bool
	Lits   map[string]*slit // uncaptured literals by placeholder
	nlit   int
	Loops  int
	lib    *libRun           // library mode: calls are followed
	tsub   map[string]*ctype // library mode: type parameters in force
}

func (r *SRef) ty(t *ctype) *ctype { return subst(t, r.tsub) }

func (r *SRef) fail(f string, a ...interface{}) { panic("schema: " + fmt.Sprintf(f, a...)) }

func (r *SRef) epoch() int {
	n := 0
	for _, e := range r.Events {
		if e.Kind != "" {
			n++
		}
	}
	return n
}

func (r *SRef) load(a asmx.Poly, t *ctype) SV {
	if r.lib != nil {
		return SV{r.lib.load(a, cword(t)), t}
	}
	if v, ok := r.cell[a.Key()]; ok {
		return SV{v, t}
	}
	r.W.SetKindAt(a, r.epoch(), cword(t))
	return SV{r.W.Load(a, r.epoch()), t}
}

func (r *SRef) store(a, v asmx.Poly) {
	if r.lib != nil {
		r.lib.store(a, v)
		return
	}
	r.Events = append(r.Events, SEvent{Kind: "store", Addr: a, Val: v})
	r.cell = map[string]asmx.Poly{a.Key(): v}
}

func (r *SRef) event(e SEvent) asmx.Poly {
	r.Events = append(r.Events, e)
	r.cell = nil
	if e.NoRet {
		panic(stopSignal{})
	}
	r.calls++
	return r.W.Word(fmt.Sprintf("r%d", r.calls), e.Ret)
}

func (r *SRef) lookup(n string) *svar {
	for i := len(r.vars) - 1; i >= 0; i-- {
		if v, ok := r.vars[i][n]; ok {
			return v
		}
	}
	return nil
}

func (r *SRef) readVar(v *svar) SV {
	if v.mem {
		return r.load(r.env.Add(asmx.Const(v.off)), v.v.T)
	}
	return v.v
}

func (r *SRef) define(n string, v SV) { r.vars[len(r.vars)-1][n] = &svar{v: v} }

func (r *SRef) fieldOf(t *ctype, f string) (int64, *ctype, bool) {
	if t.K == "array" || t.Name == "string" {
		if f == "length" {
			return 0, cInt, true
		}
		return 0, nil, false
	}
	if t.Name == "pointer" && f == "deref" {
		return 0, cPointer, true
	}
	d := r.P.Types[t.Name]
	if d == nil || d.Op != "struct" {
		return 0, nil, false
	}
	b := map[string]*ctype{}
	for i, p := range d.TParams {
		if i < len(t.Args) {
			b[p] = t.Args[i]
		}
	}
	for i, p := range d.Params {
		if p.Name == f {
			return int64(8 * i), subst(p.T, b), true
		}
	}
	return 0, nil, false
}

func (r *SRef) length(arr SV) asmx.Poly {
	if r.lib != nil {
		n := untagW(r.W, r.lib.load(arr.P, "int"))
		r.W.NonNegative(n)
		return n
	}
	r.W.Constant(arr.P)
	r.W.SetKind(arr.P, "int")
	n := untagW(r.W, r.W.Load(arr.P, 0))
	r.W.NonNegative(n)
	return n
}

func (r *SRef) truth(v SV) bool {
	t, err := r.W.Truth(v.P)
	if err != nil {
		r.fail("%v", err)
	}
	return t
}

// addr is the storage an expression designates.
func (r *SRef) addr(x *clara.Expr) (asmx.Poly, *ctype) {
	switch x.Op {
	case "dot":
		l := r.eval(x.K[0])
		off, t, ok := r.fieldOf(l.T, x.Val)
		if !ok {
			r.fail("field %s of %s", x.Val, l.T)
		}
		return l.P.Add(asmx.Const(off)), t
	case "index":
		arr := r.eval(x.K[0])
		idx := r.eval(x.K[1])
		i := untagW(r.W, idx.P)
		n := r.length(arr)
		if !r.truth(SV{r.W.Ult(i, n), cBool}) {
			if r.lib != nil {
				r.lib.stop("index out of bounds")
			}
			r.event(SEvent{Kind: "call", Decl: r.P.Fns["indexOutOfBounds"][0], Args: []asmx.Poly{tagW(i), tagW(n)}, Clara: true, NoRet: true})
		}
		return arr.P.Add(i.Scale(8)).Add(asmx.Const(8)), arr.T.Elem
	}
	r.fail("address of %s", x.Op)
	return asmx.Poly{}, nil
}

func (r *SRef) eval(x *clara.Expr) SV {
	w := r.W
	one := asmx.Const(1)
	switch x.Op {
	case "id":
		if v := r.lookup(x.Val); v != nil {
			return r.readVar(v)
		}
		if ds := r.P.Fns[x.Val]; len(ds) == 1 {
			return fnValue(ds[0], 0)
		} else if len(ds) > 1 {
			return SV{asmx.Atom("&fns:" + x.Val), &ctype{K: "overloads"}}
		}
		r.fail("name %s", x.Val)
	case "int":
		n, err := strconv.ParseInt(x.Val, 0, 64)
		if err != nil {
			r.fail("%v", err)
		}
		return SV{tagW(asmx.Const(n)), cInt}
	case "bool":
		if x.Val == "true" {
			return SV{one, cBool}
		}
		return SV{asmx.Const(0), cBool}
	case "str":
		if r.lib != nil {
			return SV{r.lib.str(x.Val), cString}
		}
		v, err := litLabel(r.Prog, x.Val)
		if err != nil {
			panic(asmx.Fault{Msg: err.Error()})
		}
		return SV{v, cString}
	case "ternary":
		if r.truth(r.eval(x.K[0])) {
			return r.eval(x.K[1])
		}
		return r.eval(x.K[2])
	case "dot", "index":
		if x.Op == "dot" && x.Val == "length" {
			l := r.eval(x.K[0])
			if l.T.K == "array" || l.T.Name == "string" {
				n := r.length(l)
				if r.lib != nil {
					return SV{tagW(n), cInt}
				}
				return SV{r.W.Load(l.P, 0), cInt}
			}
			off, t, ok := r.fieldOf(l.T, x.Val)
			if !ok {
				r.fail("length of %s", l.T)
			}
			return r.load(l.P.Add(asmx.Const(off)), t)
		}
		a, t := r.addr(x)
		return r.load(a, t)
	case "call":
		if f := x.K[0]; f.Op == "id" && r.lookup(f.Val) == nil {
			return r.callNamed(f.Val, nil, x.K[1:], x.TArgs)
		}
		f := r.eval(x.K[0])
		return r.callValue(f, x.K[1:])
	case "mcall":
		l := r.eval(x.K[0])
		if off, t, ok := r.fieldOf(l.T, x.Val); ok && x.Val != "length" {
			f := r.load(l.P.Add(asmx.Const(off)), t)
			return r.callValue(f, x.K[1:])
		}
		if v := r.lookup(x.Val); v != nil { // a function variable in call position
			f := r.readVar(v)
			if r.lib != nil {
				vs := []SV{l}
				for _, a := range x.K[1:] {
					vs = append(vs, r.eval(a))
				}
				return r.lib.callValue(f, vs)
			}
			ev := SEvent{Kind: "call", Callee: &f.P, Clara: true, Ret: cword(f.T.Ret), Args: []asmx.Poly{l.P}}
			for _, a := range x.K[1:] {
				ev.Args = append(ev.Args, r.eval(a).P)
			}
			return SV{r.event(ev), f.T.Ret}
		}
		return r.callNamed(x.Val, &l, x.K[1:], x.TArgs)
	case "arrlit":
		if r.lib != nil {
			r.fail("array literal in the library")
		}
		dn := r.P.Fns["arrayNoInit"][0]
		var T *ctype
		// the array exists before its elements are evaluated
		ev := r.event(SEvent{Kind: "call", Decl: dn, Args: []asmx.Poly{tagW(asmx.Const(int64(len(x.K))))}, Clara: true, Ret: "ptr"})
		for i, k := range x.K {
			v := r.eval(k)
			T = v.T
			r.store(ev.Add(asmx.Const(int64(8+8*i))), v.P)
		}
		return SV{ev, &ctype{K: "array", Elem: T}}
	case "fnlit":
		return r.fnlit(x.Fn)
	case "type":
		return SV{tagW(asmx.Const(0)), &ctype{K: "type", Elem: r.ty(x.Type)}}
	}
	a := r.eval(x.K[0])
	switch x.Op {
	case "opNot":
		return SV{one.Sub(a.P), cBool}
	case "opNeg":
		return SV{tagW(asmx.Const(0).Sub(untagW(w, a.P))), cInt}
	case "opBNot":
		return SV{tagW(untagW(w, a.P).Not()), cInt}
	}
	b := r.eval(x.K[1])
	switch x.Op {
	case "opAnd":
		return SV{w.Mul(a.P, b.P), cBool}
	case "opOr":
		return SV{a.P.Add(b.P).Sub(w.Mul(a.P, b.P)), cBool}
	}
	p, q := untagW(w, a.P), untagW(w, b.P)
	switch x.Op {
	case "opAdd":
		return SV{tagW(p.Add(q)), cInt}
	case "opSub":
		return SV{tagW(p.Sub(q)), cInt}
	case "opMul":
		return SV{tagW(w.Mul(p, q)), cInt}
	case "opDiv":
		return SV{tagW(w.Div(p, q)), cInt}
	case "opBAnd":
		return SV{tagW(w.Bit("and", p, q)), cInt}
	case "opBOr":
		return SV{tagW(w.Bit("or", p, q)), cInt}
	case "opBXor":
		return SV{tagW(w.Bit("xor", p, q)), cInt}
	case "opBLeft":
		return SV{tagW(w.ShlV(p, q)), cInt}
	case "opBRight":
		return SV{tagW(w.SarV(p, q)), cInt}
	case "opLt":
		return SV{w.Lt(p, q), cBool}
	case "opGt":
		return SV{w.Lt(q, p), cBool}
	case "opLte":
		return SV{one.Sub(w.Lt(q, p)), cBool}
	case "opGte":
		return SV{one.Sub(w.Lt(p, q)), cBool}
	case "opEq":
		return SV{w.EqW(p, q), cBool}
	}
	r.fail("expression %s", x.Op)
	return SV{}
}

func hasAttr(d *clara.Decl, a string) bool {
	for _, x := range d.Attrs {
		if x == a {
			return true
		}
	}
	return false
}

func (r *SRef) callNamed(name string, self *SV, args []*clara.Expr, targs []*ctype) SV {
	var vs []SV
	if self != nil {
		vs = append(vs, *self)
	}
	for _, a := range args {
		vs = append(vs, r.eval(a))
	}
	if name == "unsafe" {
		if len(vs) != 3 || vs[2].T.K != "type" || vs[1].T.Name != "int" {
			r.fail("unsafe with %d arguments", len(vs))
		}
		return SV{vs[0].P.Add(untagW(r.W, vs[1].P)), vs[2].T.Elem}
	}
	var d *clara.Decl
	var b map[string]*ctype
	for _, c := range r.P.Fns[name] {
		if len(c.Params) != len(vs) && !(hasAttr(c, "variadic") && len(vs) >= len(c.Params)) {
			continue
		}
		bind := map[string]*ctype{}
		for i, tp := range c.TParams {
			bind[tp] = nil
			if i < len(targs) {
				bind[tp] = r.ty(targs[i])
			}
		}
		ok := true
		cvs := append([]SV{}, vs...)
		for i, p := range c.Params {
			if vs[i].T.K == "overloads" {
				a, _ := vs[i].P.SingleAtom()
				ok2 := false
				for k, o := range r.P.Fns[strings.TrimPrefix(a, "&fns:")] {
					try := map[string]*ctype{}
					for x, y := range bind {
						try[x] = y
					}
					if fv := fnValue(o, k); unify(p.T, fv.T, try) {
						cvs[i], bind, ok2 = fv, try, true
						break
					}
				}
				ok = ok && ok2
				continue
			}
			if !unify(p.T, vs[i].T, bind) {
				ok = false
			}
		}
		if ok {
			d, b = c, bind
			vs = cvs
			break
		}
	}
	if d == nil {
		var ts []string
		for _, v := range vs {
			ts = append(ts, v.T.String())
		}
		r.fail("call %s(%s)", name, strings.Join(ts, ", "))
	}
	if r.lib != nil {
		return r.lib.invoke(d, b, vs)
	}
	ret := subst(d.Ret, b)
	ev := SEvent{Kind: "call", Decl: d, Clara: !d.Extern, Ret: cword(ret)}
	raw := d.Extern && hasAttr(d, "RawValues")
	for _, v := range vs {
		p := v.P
		if raw {
			switch {
			case v.T.K == "array" || v.T.Name == "string" || v.T.Name == "bytes":
				p = p.Add(asmx.Const(8))
			case v.T.Name == "int":
				p = untagW(r.W, p)
			}
		}
		ev.Args = append(ev.Args, p)
	}
	if raw && ret != nil && ret.Name == "int" {
		ev.Ret = "raw"
		return SV{tagW(r.event(ev)), ret}
	}
	return SV{r.event(ev), ret}
}

// fnValue is the k-th declaration of a name as a value.
func fnValue(d *clara.Decl, k int) SV {
	t := &ctype{K: "fn", Ret: d.Ret}
	for _, p := range d.Params {
		t.Params = append(t.Params, p.T)
	}
	return SV{asmx.Atom(fmt.Sprintf("&fn:%s#%d", d.Name, k)), t}
}

func (r *SRef) callValue(f SV, args []*clara.Expr) SV {
	if f.T.K != "fn" {
		r.fail("call of %s", f.T)
	}
	if r.lib != nil {
		var vs []SV
		for _, a := range args {
			vs = append(vs, r.eval(a))
		}
		return r.lib.callValue(f, vs)
	}
	ev := SEvent{Kind: "call", Callee: &f.P, Clara: true, Ret: cword(f.T.Ret)}
	for _, a := range args {
		ev.Args = append(ev.Args, r.eval(a).P)
	}
	return SV{r.event(ev), f.T.Ret}
}

// fnlit: the literal sees the value of every enclosing variable its body mentions and nothing else.
func (r *SRef) fnlit(d *clara.Decl) SV {
	free := freeVars(d)
	l := &slit{Decl: d, Vals: map[string]SV{}}
	for _, n := range free {
		if v := r.lookup(n); v != nil {
			l.Caps = append(l.Caps, n)
		}
	}
	t := &ctype{K: "fn", Ret: r.ty(d.Ret)}
	for _, p := range d.Params {
		t.Params = append(t.Params, r.ty(p.T))
	}
	r.nlit++
	ph := fmt.Sprintf("&lit:%d:%p", r.nlit, d)
	if r.lib != nil {
		return r.lib.lit(ph, l, t)
	}
	if len(l.Caps) == 0 {
		r.Lits[ph] = l
		return SV{asmx.Atom(ph), t}
	}
	var vals []asmx.Poly
	for _, n := range l.Caps {
		v := r.readVar(r.lookup(n))
		l.Vals[n] = v
		vals = append(vals, v.P)
	}
	env := r.event(SEvent{Kind: "cons", Lit: l, Env: true, Args: vals, Clara: true, Ret: "ptr"})
	cl := r.event(SEvent{Kind: "cons", Lit: l, Args: []asmx.Poly{asmx.Atom(ph), env}, Clara: true, Ret: "ptr"})
	return SV{cl, t}
}

// freeVars lists names a literal mentions that it does not bind, in order of mention.
func freeVars(d *clara.Decl) []string {
	var r []string
	seen := map[string]bool{}
	var fn func(d *clara.Decl, scope []map[string]bool)
	bound := func(s []map[string]bool, n string) bool {
		for _, m := range s {
			if m[n] {
				return true
			}
		}
		return false
	}
	var ex func(x *clara.Expr, s []map[string]bool)
	ex = func(x *clara.Expr, s []map[string]bool) {
		if x == nil {
			return
		}
		if (x.Op == "id" || x.Op == "mcall") && !bound(s, x.Val) && !seen[x.Val] {
			seen[x.Val] = true
			r = append(r, x.Val)
		}
		if x.Fn != nil {
			fn(x.Fn, s)
		}
		for _, k := range x.K {
			ex(k, s)
		}
	}
	var st func(ss []*clara.Stmt, s []map[string]bool)
	st = func(ss []*clara.Stmt, s []map[string]bool) {
		s = append(append([]map[string]bool(nil), s...), map[string]bool{})
		top := s[len(s)-1]
		for _, x := range ss {
			switch x.Op {
			case "das":
				ex(x.X, s)
				top[x.L.Val] = true
				continue
			case "for":
				ex(x.X, s)
				ex(x.To, s)
				st(x.Body[0], append(append([]map[string]bool(nil), s...), map[string]bool{x.Name: true}))
				continue
			case "match":
				ex(x.X, s)
				for _, c := range x.Cases {
					m := map[string]bool{}
					for _, v := range c.Vars {
						m[v] = true
					}
					st(c.Body, append(append([]map[string]bool(nil), s...), m))
				}
				continue
			}
			ex(x.L, s)
			ex(x.X, s)
			for _, c := range x.Conds {
				ex(c, s)
			}
			for _, b := range x.Body {
				st(b, s)
			}
		}
	}
	fn = func(d *clara.Decl, s []map[string]bool) {
		m := map[string]bool{}
		for _, p := range d.Params {
			m[p.Name] = true
		}
		s = append(append([]map[string]bool(nil), s...), m)
		ex(d.Expr, s)
		st(d.Body, s)
	}
	fn(d, nil)
	return r
}

func (r *SRef) exec(ss []*clara.Stmt) { r.execWith(ss, nil) }

func (r *SRef) execWith(ss []*clara.Stmt, vars map[string]*svar) {
	if vars == nil {
		vars = map[string]*svar{}
	}
	r.vars = append(r.vars, vars)
	defer func() { r.vars = r.vars[:len(r.vars)-1] }()
	for _, s := range ss {
		r.stmt(s)
	}
}

const loopBound = 2

func (r *SRef) bound() int {
	if r.lib != nil {
		return r.lib.Bound
	}
	return loopBound
}

func (r *SRef) stmt(s *clara.Stmt) {
	w := r.W
	switch s.Op {
	case "expr":
		r.eval(s.X)
	case "das":
		r.define(s.L.Val, r.eval(s.X))
	case "as":
		v := r.eval(s.X)
		if s.L.Op == "id" {
			l := r.lookup(s.L.Val)
			if l == nil {
				r.fail("assign %s", s.L.Val)
			}
			if l.mem {
				r.store(r.env.Add(asmx.Const(l.off)), v.P)
			} else {
				l.v.P = v.P
			}
			return
		}
		a, _ := r.addr(s.L)
		r.store(a, v.P)
	case "return":
		if s.X == nil {
			panic(retSignal{})
		}
		v := r.eval(s.X)
		panic(retSignal{&v.P})
	case "if":
		for i, c := range s.Conds {
			if c == nil || r.truth(r.eval(c)) {
				r.exec(s.Body[i])
				return
			}
		}
	case "while":
		for n := 0; r.truth(r.eval(s.X)); n++ {
			if n >= r.bound() {
				panic(asmx.Cut{})
			}
			r.exec(s.Body[0])
		}
	case "for":
		if s.To == nil {
			arr := r.eval(s.X)
			for i := 0; r.truth(SV{w.Lt(asmx.Const(int64(i)), r.length(arr)), cBool}); i++ {
				if i >= r.bound() {
					panic(asmx.Cut{})
				}
				e := r.load(arr.P.Add(asmx.Const(int64(8+8*i))), arr.T.Elem)
				r.execWith(s.Body[0], map[string]*svar{s.Name: {v: e}})
			}
			return
		}
		down := s.To.Op == "int" && s.To.Val == "0"
		i := untagW(w, r.eval(s.X).P)
		if down {
			i = untagW(w, tagW(i.Sub(asmx.Const(1))))
		}
		for n := 0; ; n++ {
			// a bound on the end expression: evaluated, without effects in schemata
			var more asmx.Poly
			if down {
				more = asmx.Const(1).Sub(w.Lt(i, asmx.Const(0)))
			} else {
				more = w.Lt(i, untagW(w, r.eval(s.To).P))
			}
			if !r.truth(SV{more, cBool}) {
				return
			}
			if n >= r.bound() {
				panic(asmx.Cut{})
			}
			r.execWith(s.Body[0], map[string]*svar{s.Name: {v: SV{tagW(i), cInt}}})
			if down {
				i = untagW(w, tagW(i.Sub(asmx.Const(1))))
			} else {
				i = untagW(w, tagW(i.Add(asmx.Const(1))))
			}
		}
	case "match":
		v := r.eval(s.X)
		d := r.P.Types[v.T.Name]
		if d == nil || d.Op != "enum" {
			r.fail("match on %s", v.T)
		}
		b := map[string]*ctype{}
		for i, p := range d.TParams {
			b[p] = v.T.Args[i]
		}
		tag := untagW(w, r.load(v.P, cInt).P)
		for _, c := range s.Cases {
			for k, con := range d.Cons {
				if con.Name != c.Cons {
					continue
				}
				if !r.truth(SV{w.EqW(tag, asmx.Const(int64(k))), cBool}) {
					continue
				}
				vars := map[string]*svar{}
				for i, n := range c.Vars {
					vars[n] = &svar{v: r.load(v.P.Add(asmx.Const(int64(8+8*i))), subst(con.Params[i].T, b))}
				}
				r.execWith(c.Body, vars)
				return
			}
		}
		panic(skipPath{}) // no such value
	}
}

// Run executes a function body; env gives captured variables' types and offsets.
func (r *SRef) Run(d *clara.Decl, caps map[string]*svar) (exit string, ret *asmx.Poly) {
	defer func() {
		if e := recover(); e != nil {
			switch s := e.(type) {
			case retSignal:
				exit, ret = "return", s.v
			case stopSignal:
				exit = "noreturn"
			case asmx.Cut:
				exit = "cut"
			default:
				panic(e)
			}
		}
	}()
	base := 0
	scope := map[string]*svar{}
	if caps != nil {
		r.env = r.W.Word("env", "ptr")
		for n, v := range caps {
			scope[n] = v
		}
		base = 1
	}
	r.vars = append(r.vars, scope, map[string]*svar{})
	for i, p := range d.Params {
		r.define(p.Name, SV{r.W.Word(fmt.Sprintf("p%d.%s", i+base, p.Name), cword(p.T)), p.T})
	}
	if d.Expr != nil {
		v := r.eval(d.Expr)
		return "return", &v.P
	}
	r.exec(d.Body)
	return "return", nil
}

func sortedSyms(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
