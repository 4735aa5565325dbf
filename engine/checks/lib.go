package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/engine/asmx"
	"verif/engine/clara"
)

// Abstract interpretation of the runtime library's source over abstract words and object shapes.

// loadLib parses every source of the installed library.
func loadLib(c *Ctx) *SProg {
	dir := filepath.Join(c.P.Dir, "install", "lib")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.clara"))
	sort.Strings(fs)
	if len(fs) == 0 {
		panic(AnchorError{"install/lib/*.clara"})
	}
	var all []*clara.Decl
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(AnchorError{f})
		}
		ds, err := clara.Parse(string(b), filepath.Base(f))
		if err != nil {
			panic(AnchorError{err.Error()})
		}
		all = append(all, ds...)
	}
	p := indexProg(all)
	p.Fns["debug"] = []*clara.Decl{{Op: "fn", Name: "debug", Extern: true, Attrs: []string{"RawValues", "variadic"}, Params: []clara.Param{{Name: "t", T: cString}, {Name: "s", T: cString}}}}
	return p
}

// LEvent is an effect of library code.
type LEvent struct {
	Kind string // load store byte-load byte-store call alloc
	Name string
	Addr asmx.Poly
	Val  asmx.Poly
	Args []asmx.Poly
	Size asmx.Poly
	In   *clara.Decl
}

type libHook func(l *libRun, d *clara.Decl, vs []SV) (SV, bool)

// libRun is one abstract run.
type libRun struct {
	*SRef
	mem, bmem map[string]asmx.Poly
	Ev        []LEvent
	Bound     int
	Depth     int
	stack     []*clara.Decl
	hooks     map[string]libHook
	fnHooks   map[*clara.Decl]libHook
	lits      map[string]*libLit
	objs      int
	Err       string // a definite problem met while running
	Freed     map[string]bool
	Stop      string
	strs      map[string]asmx.Poly
	assumed   bool
}

type libLit struct {
	l    *slit
	vars map[string]*svar
	tsub map[string]*ctype
}

type libFault struct{ msg string }

func newLibRun(p *SProg, prefix []int) *libRun {
	w := asmx.NewWorld(prefix)
	w.Lib = true
	l := &libRun{SRef: &SRef{W: w, P: p}, mem: map[string]asmx.Poly{}, bmem: map[string]asmx.Poly{}, Bound: 4, Depth: 40,
		hooks: map[string]libHook{}, fnHooks: map[*clara.Decl]libHook{}, lits: map[string]*libLit{}, Freed: map[string]bool{}, strs: map[string]asmx.Poly{}}
	l.SRef.lib = l
	return l
}

// obj introduces the address of an object.
func (l *libRun) obj(n string) asmx.Poly {
	i := l.W.Info(n)
	i.Ptr, i.HasRange, i.Lo, i.Hi, i.Align = false, true, 1<<16, 1<<43, 0
	return asmx.Atom(n).Scale(16) // aligned
}

// num introduces an integer value in a range.
func (l *libRun) num(n string, lo, hi int64) asmx.Poly {
	i := l.W.Info(n)
	i.HasRange, i.Lo, i.Hi, i.R63 = true, lo, hi, true
	return asmx.Atom(n)
}

func (l *libRun) set(a, v asmx.Poly) { l.mem[a.Key()] = v }

// baseOf is the address without its constant part.
func baseOf(a asmx.Poly) string { return a.Sub(asmx.Const(a.ConstPart())).Key() }

func (l *libRun) cur() *clara.Decl {
	if len(l.stack) == 0 {
		return nil
	}
	return l.stack[len(l.stack)-1]
}

func (l *libRun) touch(a asmx.Poly, what string) {
	if l.Freed[baseOf(a)] {
		panic(libFault{fmt.Sprintf("%s %s after it was freed", what, a)})
	}
}

func (l *libRun) load(a asmx.Poly, kind string) asmx.Poly {
	l.touch(a, "reads")
	v, ok := l.mem[a.Key()]
	if !ok {
		n := strings.ReplaceAll("["+a.Key()+"]", "*", "×")
		v = l.W.Word(n, kind)
		l.mem[a.Key()] = v
	}
	l.Ev = append(l.Ev, LEvent{Kind: "load", Addr: a, Val: v, In: l.cur()})
	return v
}

func (l *libRun) store(a, v asmx.Poly) {
	l.touch(a, "writes")
	l.Ev = append(l.Ev, LEvent{Kind: "store", Addr: a, Val: v, In: l.cur()})
	l.mem[a.Key()] = v
}

func (l *libRun) str(q string) asmx.Poly {
	v, err := claraUnquote(q)
	if err != nil {
		l.fail("%v", err)
	}
	if p, ok := l.strs[v]; ok {
		return p
	}
	p := l.obj(fmt.Sprintf("&str:%x:", v))
	l.strs[v] = p
	l.set(p, tagW(asmx.Const(int64(len(v)))))
	for i := 0; i < len(v); i++ {
		l.bmem[p.Add(asmx.Const(int64(8+i))).Key()] = asmx.Const(int64(int8(v[i])))
	}
	return p
}

// stop ends the program (a panic of the language).
func (l *libRun) stop(why string) {
	l.Stop = why
	panic(stopSignal{})
}

func (l *libRun) fresh(kind string) asmx.Poly {
	l.calls++
	return l.W.Word(fmt.Sprintf("r%d", l.calls), kind)
}

func (l *libRun) newObj(size asmx.Poly, why string) asmx.Poly {
	l.objs++
	o := l.obj(fmt.Sprintf("new%d", l.objs))
	l.Ev = append(l.Ev, LEvent{Kind: "alloc", Name: why, Addr: o, Size: size, In: l.cur()})
	return o
}

// invoke runs a declared function.
func (l *libRun) invoke(d *clara.Decl, b map[string]*ctype, vs []SV) SV {
	ret := subst(d.Ret, b)
	if ret == nil {
		ret = cNothing
	}
	if h, ok := l.fnHooks[d]; ok {
		if v, ok := h(l, d, vs); ok {
			v.T = ret
			return v
		}
	}
	if h, ok := l.hooks[d.Name]; ok && d.Extern {
		if v, ok := h(l, d, vs); ok {
			v.T = ret
			return v
		}
	}
	switch {
	case d.Op == "cons":
		n := len(vs)
		_, enum := l.P.Cons[d.Name]
		if enum {
			n++
		}
		o := l.newObj(asmx.Const(int64(8*n)), d.Name)
		at := int64(0)
		if enum {
			for k, c := range l.P.Cons[d.Name].Cons {
				if c.Name == d.Name {
					l.set(o, tagW(asmx.Const(int64(k))))
				}
			}
			at = 8
		}
		for i, v := range vs {
			l.set(o.Add(asmx.Const(at+int64(8*i))), v.P)
		}
		return SV{o, ret}
	case d.Extern:
		return l.extern(d, ret, vs)
	}
	return l.inline(d, b, ret, nil, vs)
}

func (l *libRun) inline(d *clara.Decl, b map[string]*ctype, ret *ctype, caps map[string]*svar, vs []SV) (res SV) {
	n := 0
	for _, s := range l.stack {
		if s == d {
			n++
		}
	}
	if len(l.stack) >= l.Depth || n > l.Bound+1 {
		panic(asmx.Cut{})
	}
	sv, st := l.vars, l.tsub
	l.stack = append(l.stack, d)
	defer func() {
		l.vars, l.tsub = sv, st
		l.stack = l.stack[:len(l.stack)-1]
		if e := recover(); e != nil {
			s, ok := e.(retSignal)
			if !ok {
				panic(e)
			}
			res = SV{asmx.Const(0), ret}
			if s.v != nil {
				res.P = *s.v
			}
		}
	}()
	l.vars = nil
	if caps != nil {
		l.vars = append(l.vars, caps)
	}
	l.vars = append(l.vars, map[string]*svar{})
	l.tsub = b
	for i, p := range d.Params {
		l.define(p.Name, SV{vs[i].P, l.ty(p.T)})
	}
	if d.Expr != nil {
		v := l.eval(d.Expr)
		return SV{v.P, ret}
	}
	l.exec(d.Body)
	return SV{asmx.Const(0), ret}
}

func (l *libRun) lit(ph string, s *slit, t *ctype) SV {
	vars := map[string]*svar{}
	for _, n := range s.Caps {
		vars[n] = &svar{v: l.readVar(l.lookup(n))}
	}
	if len(s.Caps) > 0 {
		l.Ev = append(l.Ev, LEvent{Kind: "alloc", Name: "closure", In: l.cur()})
	}
	l.lits[ph] = &libLit{s, vars, l.tsub}
	return SV{asmx.Atom(ph), t}
}

func (l *libRun) callValue(f SV, vs []SV) SV {
	ret := f.T.Ret
	if ret == nil {
		ret = cNothing
	}
	if a, ok := f.P.SingleAtom(); ok {
		if x, ok := l.lits[a]; ok {
			return l.inline(x.l.Decl, x.tsub, ret, x.vars, vs)
		}
		if strings.HasPrefix(a, "&fn:") {
			n, k, _ := strings.Cut(strings.TrimPrefix(a, "&fn:"), "#")
			var i int
			fmt.Sscan(k, &i)
			d := l.P.Fns[n][i]
			b := map[string]*ctype{}
			for _, tp := range d.TParams {
				b[tp] = nil
			}
			for j, p := range d.Params {
				unify(p.T, vs[j].T, b)
			}
			return l.invoke(d, b, vs)
		}
	}
	e := LEvent{Kind: "call", Addr: f.P, In: l.cur()}
	for _, v := range vs {
		e.Args = append(e.Args, v.P)
	}
	l.Ev = append(l.Ev, e)
	return SV{l.fresh(cword(ret)), ret}
}

// rawArgs are the values a C routine gets.
func (l *libRun) rawArgs(d *clara.Decl, vs []SV) []asmx.Poly {
	raw := hasAttr(d, "RawValues")
	var r []asmx.Poly
	for _, v := range vs {
		p := v.P
		if raw {
			switch {
			case v.T.K == "array" || v.T.Name == "string" || v.T.Name == "bytes":
				p = p.Add(asmx.Const(8))
			case v.T.Name == "int":
				p = untagW(l.W, p)
			}
		}
		r = append(r, p)
	}
	return r
}

func (l *libRun) extern(d *clara.Decl, ret *ctype, vs []SV) SV {
	args := l.rawArgs(d, vs)
	w := l.W
	switch d.Name {
	case "debug", "printf":
		l.Ev = append(l.Ev, LEvent{Kind: "call", Name: d.Name, Args: args, In: l.cur()})
		return SV{asmx.Const(0), ret}
	case "toTaggedInt":
		return SV{tagW(vs[0].P), ret}
	case "toUntaggedInt":
		return SV{untagW(w, vs[0].P), ret}
	case "exit":
		l.Ev = append(l.Ev, LEvent{Kind: "call", Name: d.Name, Args: args, In: l.cur()})
		if c, ok := args[0].IsConst(); !ok || c == 0 {
			panic(libFault{fmt.Sprintf("exits with status %s", args[0])})
		}
		l.stop("exit")
	case "readByte", "writeByte", "readInt", "writeInt":
		i := untagW(w, vs[1].P)
		size := int64(1)
		if strings.HasSuffix(d.Name, "Int") {
			size = 8
		}
		a := vs[0].P.Add(i.Scale(uint64(size)))
		e := LEvent{Kind: d.Name, Addr: a, Size: asmx.Const(size), In: l.cur()}
		l.touch(a, "accesses")
		m := l.bmem
		if size == 8 {
			m = l.mem
		}
		if strings.HasPrefix(d.Name, "write") {
			e.Val = vs[2].P
			l.Ev = append(l.Ev, e)
			m[a.Key()] = vs[2].P
			return SV{asmx.Const(0), ret}
		}
		v, ok := m[a.Key()]
		if !ok {
			n := strings.ReplaceAll(fmt.Sprintf("b[%s]", a.Key()), "*", "×")
			if size == 1 {
				v = l.num(n, -128, 127)
			} else {
				v = w.Word(n, "raw")
			}
			m[a.Key()] = v
		}
		e.Val = v
		l.Ev = append(l.Ev, e)
		return SV{v, ret}
	}
	l.Ev = append(l.Ev, LEvent{Kind: "call", Name: d.Name, Args: args, In: l.cur()})
	if hasAttr(d, "RawValues") && ret.Name == "int" {
		return SV{tagW(l.fresh("raw")), ret}
	}
	return SV{l.fresh(cword(ret)), ret}
}

// libPath is the outcome of one path.
type libPath struct {
	L    *libRun
	Exit string // return stop cut fault skip
	Ret  asmx.Poly
	Msg  string
}

// explore runs a function on every partition of its undecided conditions.
func exploreLib(p *SProg, d *clara.Decl, setup func(l *libRun) []SV, max int, visit func(x *libPath)) (n int, complete bool) {
	var prefix []int
	for {
		l := newLibRun(p, prefix)
		x := &libPath{L: l}
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch s := e.(type) {
					case stopSignal:
						x.Exit = "stop"
					case asmx.Cut:
						x.Exit = "cut"
					case libFault:
						x.Exit, x.Msg = "fault", s.msg
					case skipPath:
						x.Exit = "skip"
					case asmx.Fault:
						x.Exit, x.Msg = "fault", s.Msg
					case string:
						x.Exit, x.Msg = "fault", s
					default:
						panic(e)
					}
				}
			}()
			vs := setup(l)
			b := map[string]*ctype{}
			x.Ret = l.inline(d, b, d.Ret, nil, vs).P
			x.Exit = "return"
		}()
		n++
		visit(x)
		next, ok := l.W.Next()
		if !ok {
			return n, true
		}
		if n >= max {
			return n, false
		}
		prefix = next
	}
}

// params gives a function's parameters as unknown words of their types.
func (l *libRun) params(d *clara.Decl) []SV {
	var vs []SV
	for i, p := range d.Params {
		n := fmt.Sprintf("p%d.%s", i, p.Name)
		switch cword(p.T) {
		case "ptr", "raw":
			vs = append(vs, SV{l.obj(n), p.T})
		default:
			vs = append(vs, SV{l.W.Word(n, cword(p.T)), p.T})
		}
	}
	return vs
}

// facts are the decided comparisons, as expressions known to be at least zero.
func (l *libRun) facts() []asmx.Poly {
	r := append([]asmx.Poly(nil), l.W.Facts...)
	for a, v := range l.W.Known() {
		t, ok := l.W.Terms[a]
		if !ok || len(t.Args) != 2 {
			continue
		}
		p, q := t.Args[0], t.Args[1]
		switch {
		case t.Op == "lt" && v == 1:
			r = append(r, q.Sub(p).Sub(asmx.Const(1)))
		case t.Op == "lt":
			r = append(r, p.Sub(q))
		case t.Op == "eq" && v == 1:
			r = append(r, p.Sub(q), q.Sub(p))
		case t.Op == "ult" && v == 1:
			r = append(r, q.Sub(p).Sub(asmx.Const(1)), p, q)
		}
	}
	return r
}

// atLeastZero reports whether the decided comparisons imply p >= 0.
func (l *libRun) atLeastZero(p asmx.Poly) bool {
	nonneg := func(x asmx.Poly) bool {
		lo, _, ok := l.W.Bounds(x)
		return ok && lo >= 0
	}
	if nonneg(p) {
		return true
	}
	fs := l.facts()
	for i, f := range fs {
		if nonneg(p.Sub(f)) {
			return true
		}
		for _, g := range fs[i:] {
			if nonneg(p.Sub(f).Sub(g)) {
				return true
			}
		}
	}
	return false
}
