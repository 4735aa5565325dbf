package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/engine/asmx"
	"verif/engine/clara"
)

// intClass is a range of argument values.
type intClass struct {
	name   string
	lo, hi int64
}

var intClasses = []intClass{{"negative", -(1 << 62), -1}, {"ordinary", 0, 1<<48 - 1}, {"large", 1 << 48, 1<<58 - 1}, {"huge", 1 << 58, 1<<62 - 1}}

func isSeq(t *ctype) bool {
	return t != nil && (t.K == "array" || t.K == "named" && (t.Name == "string" || t.Name == "bytes"))
}

// seqParams gives parameters with lengths, integers from the given classes.
func (l *libRun) seqParams(d *clara.Decl, cls []intClass) []SV {
	var vs []SV
	k := 0
	for i, p := range d.Params {
		n := fmt.Sprintf("p%d.%s", i, p.Name)
		switch {
		case p.T.Name == "int" && p.T.K == "named":
			c := cls[k]
			k++
			vs = append(vs, SV{tagW(l.num(n, c.lo, c.hi)), p.T})
		case cword(p.T) == "bool":
			vs = append(vs, SV{l.W.Word(n, "bool"), p.T})
		default:
			o := l.obj(n)
			l.lengths(o, p.T, n)
			vs = append(vs, SV{o, p.T})
		}
	}
	return vs
}

// lengths gives sequences, also in fields of structures, a length.
func (l *libRun) lengths(o asmx.Poly, t *ctype, n string) {
	if isSeq(t) {
		l.set(o, tagW(l.num(n+".len", 0, 1<<40)))
		return
	}
	if d := l.P.Types[t.Name]; d != nil && d.Op == "struct" && strings.Count(n, ".") < 4 {
		for i, f := range d.Params {
			if ft := f.T; isSeq(ft) {
				q := l.obj(n + "." + f.Name)
				l.set(o.Add(konst(int64(8*i))), q)
				l.lengths(q, ft, n+"."+f.Name)
			}
		}
	}
}

// access is a raw access with its owner.
type access struct {
	e        LEvent
	idx, len asmx.Poly
	owned    bool
}

// hookAlloc makes the allocator an opaque operation giving a zeroed object.
func (l *libRun) hookAlloc(alloc *clara.Decl, sizes map[string]LEvent) {
	l.fnHooks[alloc] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) {
		l.objs++
		o := l.obj(fmt.Sprintf("new%d", l.objs))
		var ints []asmx.Poly
		for _, v := range vs {
			if v.T.Name == "int" {
				ints = append(ints, untagW(l.W, v.P))
			}
		}
		e := LEvent{Kind: "claralloc", Addr: o, Size: ints[0], Args: ints, In: l.cur()}
		l.Ev = append(l.Ev, e)
		sizes[o.Key()] = e
		l.set(o, konst(0))
		return SV{P: o}, true
	}
}

// granted is the size of an allocation that succeeded: sizes beyond the address space, wrapped or negative, never do.
// ok is false when the allocation always fails.
func (l *libRun) granted(size asmx.Poly) (r asmx.Poly, ok bool) {
	lo, hi, known := l.W.Bounds(size)
	if known && (lo >= 1<<48 || hi <= 0) || l.atLeastZero(konst(0).Sub(size)) || l.atLeastZero(size.Sub(konst(1<<48))) {
		return size, false
	}
	return size, true
}

func nInts(d *clara.Decl) int {
	n := 0
	for _, p := range d.Params {
		if p.T.K == "named" && p.T.Name == "int" {
			n++
		}
	}
	return n
}

func classProduct(n int) [][]intClass {
	r := [][]intClass{nil}
	for i := 0; i < n; i++ {
		var nx [][]intClass
		for _, p := range r {
			for _, c := range intClasses {
				nx = append(nx, append(append([]intClass(nil), p...), c))
			}
		}
		r = nx
	}
	return r
}

func declSig(d *clara.Decl) string {
	var ps []string
	for _, p := range d.Params {
		ps = append(ps, p.T.String())
	}
	return d.Name + "(" + strings.Join(ps, ", ") + ")"
}

// directCalls lists the names a function's own body calls.
func directCalls(d *clara.Decl) map[string]bool {
	r := map[string]bool{}
	walkDecl(d, func(x *clara.Expr) {
		switch {
		case x.Op == "call" && x.K[0].Op == "id":
			r[x.K[0].Val] = true
		case x.Op == "mcall":
			r[x.Val] = true
		}
	})
	return r
}

var rawNames = []string{"readByte", "writeByte", "readInt", "writeInt"}

// libBounds decides that raw accesses of the library stay inside their object.
func libBounds(c *Ctx, rule string, lib *SProg) {
	alloc := libFn(lib, "claralloc")
	collector := reachDecls(lib, alloc)
	collector[alloc] = true
	type verdict struct {
		ok   bool
		msg  string
		n    int
		raws int
	}
	memo := map[*clara.Decl]*verdict{}
	decide := func(d *clara.Decl) *verdict {
		if v, ok := memo[d]; ok {
			return v
		}
		v := &verdict{ok: true}
		memo[d] = v
		for _, cls := range classProduct(nInts(d)) {
			var names []string
			for _, k := range cls {
				names = append(names, k.name)
			}
			sizes := map[string]LEvent{}
			var params []SV
			exploreLib(lib, d, func(l *libRun) []SV {
				l.Bound, l.Depth = 2, 12
				l.hookAlloc(alloc, sizes)
				params = l.seqParams(d, cls)
				return params
			}, 200, func(x *libPath) {
				c.Traces++
				v.n++
				if x.Exit == "fault" && v.ok {
					v.ok, v.msg = false, x.Msg
				}
				for _, e := range x.L.Ev {
					raw := hasStr(rawNames, e.Kind)
					if e.Kind == "call" && e.Name == "read" && len(e.Args) == 3 {
						raw = true
					}
					if !raw {
						continue
					}
					v.raws++
					if msg := x.L.inside(e); msg != "" && v.ok {
						v.ok, v.msg = false, fmt.Sprintf("%s (arguments %v)", msg, names)
					}
				}
			})
		}
		return v
	}
	var users []*clara.Decl
	for _, d := range lib.Decls {
		if d.Op != "fn" || d.Extern || collector[d] {
			continue
		}
		dc := directCalls(d)
		for _, n := range rawNames {
			if dc[n] {
				users = append(users, d)
				break
			}
		}
		if dc["read"] {
			users = append(users, d)
		}
	}
	callers := map[*clara.Decl][]*clara.Decl{}
	for _, d := range lib.Decls {
		if d.Op == "fn" && !d.Extern {
			for _, k := range libCalls(lib, d) {
				callers[k] = append(callers[k], d)
			}
		}
	}
	accessor := map[string]bool{"get": true, "set": true, "byte": true, "read": true}
	var settle func(d *clara.Decl, depth int) string
	settle = func(d *clara.Decl, depth int) string {
		v := decide(d)
		if v.ok {
			return ""
		}
		if accessor[d.Name] || len(callers[d]) == 0 || depth > 3 {
			return v.msg
		}
		// an internal helper: every use must be inside bounds
		for _, k := range callers[d] {
			if m := settle(k, depth+1); m != "" {
				return fmt.Sprintf("%s, used by %s: %s", v.msg, k.Name, m)
			}
		}
		return ""
	}
	done := map[*clara.Decl]bool{}
	for _, d := range users {
		if done[d] {
			continue
		}
		done[d] = true
		m := settle(d, 0)
		c.Check(m == "", rule, declSig(d), d.File+":"+d.Name, "%s", m)
		c.Sample(rule, declSig(d))
	}
	for n := range accessor {
		found := 0
		for _, d := range lib.Fns[n] {
			if d.Op == "fn" && !d.Extern && len(d.Params) > 0 && (isSeq(d.Params[0].T) || n == "read") && d.Params[0].T.K != "array" {
				v := decide(d)
				found++
				c.Check(v.ok && v.raws > 0, rule, "accessor "+declSig(d), d.File+":"+d.Name, "%s (%d raw accesses)", v.msg, v.raws)
			}
		}
		c.Check(found > 0, rule, "accessor "+n, "install/lib", "no such accessor")
	}
}

// inside checks a raw access against the length of the object it addresses.
func (l *libRun) inside(e LEvent) string {
	a := e.Addr
	width := int64(1)
	if e.Kind == "call" {
		a = e.Args[1]
	} else if s, ok := e.Size.IsConst(); ok {
		width = s
	}
	var owner asmx.Poly
	found := 0
	for _, m := range a.Monos() {
		if m == "" || a.Coef(m) != 16 {
			continue
		}
		o := asmx.Atom(m).Scale(16)
		if _, ok := l.mem[o.Key()]; ok {
			owner = o
			found++
		}
	}
	if found != 1 {
		return fmt.Sprintf("%s in %s addresses %s, no known object", e.Kind, e.In.Name, a)
	}
	n := untagW(l.W, l.mem[owner.Key()])
	off := a.Sub(owner).Sub(konst(8))
	last := off.Add(konst(width))
	if e.Kind == "call" {
		if !l.atLeastZero(e.Args[2]) {
			return fmt.Sprintf("%s in %s: the size %s may be negative", e.Name, e.In.Name, e.Args[2])
		}
		last = off.Add(e.Args[2])
	}
	if !l.atLeastZero(off) {
		return fmt.Sprintf("%s in %s: the index %s may be negative", e.Kind, e.In.Name, off)
	}
	if !l.atLeastZero(n.Sub(last)) {
		return fmt.Sprintf("%s in %s: the index %s may reach beyond the length %s", e.Kind, e.In.Name, off, n)
	}
	return ""
}

// libObjects decides that arrays, byte arrays and strings the library builds have the room and type of their length.
func libObjects(c *Ctx, rule string, lib *SProg, ds []typeDesc) {
	alloc := libFn(lib, "claralloc")
	collector := reachDecls(lib, alloc)
	collector[alloc] = true
	var fns []*clara.Decl
	for _, d := range lib.Decls {
		if d.Op != "fn" || d.Extern || collector[d] || !isSeq(d.Ret) {
			continue
		}
		if reachDecls(lib, d)[alloc] && nInts(d) <= 3 && libDepth(lib, d, alloc) <= 4 {
			fns = append(fns, d)
		}
	}
	sort.SliceStable(fns, func(i, j int) bool { return declSig(fns[i]) < declSig(fns[j]) })
	total := 0
	for _, d := range fns {
		where := d.File + ":" + d.Name
		built := 0
		bad := ""
		for _, cls := range classProduct(nInts(d)) {
			var names []string
			for _, k := range cls {
				names = append(names, k.name)
			}
			sizes := map[string]LEvent{}
			exploreLib(lib, d, func(l *libRun) []SV {
				l.Bound, l.Depth = 2, 12
				for k := range sizes {
					delete(sizes, k)
				}
				l.hookAlloc(alloc, sizes)
				return l.seqParams(d, cls)
			}, 300, func(x *libPath) {
				c.Traces++
				l := x.L
				if bad != "" || x.Exit == "cut" || x.Exit == "stop" || x.Exit == "skip" {
					return
				}
				if x.Exit == "fault" {
					bad = x.Msg
					return
				}
				for _, e := range l.Ev {
					if e.Kind != "claralloc" {
						continue
					}
					sz, ok := l.granted(e.Size)
					if !ok {
						continue
					}
					e.Size = sz
					if m := l.roomy(e, d, x, ds); m != "" {
						bad = fmt.Sprintf("%s (arguments %v)", m, names)
						return
					}
					built++
				}
			})
		}
		if bad == "" && built == 0 {
			continue // builds nothing within the bounds
		}
		total++
		c.Check(bad == "", rule, declSig(d), where, "%s", bad)
		c.Sample(rule, declSig(d))
	}
	c.Check(total >= 5, rule, "functions", "install/lib", "only %d functions build arrays, byte arrays or strings", total)
}

func libDepth(p *SProg, from, to *clara.Decl) int {
	d := map[*clara.Decl]int{from: 0}
	q := []*clara.Decl{from}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == to {
			return d[x]
		}
		for _, k := range libCalls(p, x) {
			if _, ok := d[k]; !ok {
				d[k] = d[x] + 1
				q = append(q, k)
			}
		}
	}
	return 1 << 20
}

// roomy checks one built object at the end of a path.
func (l *libRun) roomy(e LEvent, d *clara.Decl, x *libPath, ds []typeDesc) string {
	o := e.Addr
	in := e.In.Name
	word := l.mem[o.Key()]
	n := untagW(l.W, word)
	if z, ok := word.IsConst(); ok && z == 0 {
		n = konst(0)
	}
	if len(e.Args) < 2 {
		return in + ": allocation without a type"
	}
	id, ok := e.Args[1].IsConst()
	if !ok {
		return "" // the caller gives the type
	}
	if id < 0 || id >= int64(len(ds)) {
		return fmt.Sprintf("%s allocates type %d, which is not in the type table", in, id)
	}
	desc := ds[id]
	str := x.Ret.Eq(o) && d.Ret.Name == "string" && d.Ret.K == "named"
	// accesses to byte arrays compare signed: nothing is inside a negative length
	if !l.atLeastZero(n) && (desc.Tag == 2 || str) {
		return fmt.Sprintf("the length %s of the object allocated in %s may be negative", n, in)
	}
	need := n.Add(konst(8))
	switch desc.Tag {
	case 2:
		need = n.Scale(8).Add(konst(8))
		if x.Ret.Eq(o) && d.Ret.K == "array" {
			if k := cword(d.Ret.Elem); k == "ptr" && !desc.Elem {
				return fmt.Sprintf("an array of %s is allocated as type %d, whose elements are not followed", d.Ret.Elem, id)
			}
		}
	case 1, 4:
		if x.Ret.Eq(o) && d.Ret.K == "array" {
			return fmt.Sprintf("an array is allocated as type %d, whose elements are not followed", id)
		}
	default:
		return fmt.Sprintf("allocates an object of type %d (descriptor %d)", id, desc.Tag)
	}
	if str {
		need = need.Add(konst(1))
	}
	if !l.atLeastZero(e.Size.Sub(need)) {
		return fmt.Sprintf("%s allocates %s bytes for a %s of length %s", in, e.Size, d.Ret, n)
	}
	for _, w := range l.Ev {
		if w.Kind != "writeByte" && w.Kind != "writeInt" {
			continue
		}
		hasObj := false
		for _, m := range w.Addr.Monos() {
			if asmx.Atom(m).Scale(16).Eq(o) {
				hasObj = true
			}
		}
		if !hasObj {
			continue
		}
		wd, _ := w.Size.IsConst()
		if !l.atLeastZero(need.Sub(konst(boolInt(x.Ret.Eq(o) && d.Ret.Name == "string"))).Sub(w.Addr.Sub(o).Add(konst(wd)))) {
			return fmt.Sprintf("writes at %s beyond the length %s", w.Addr.Sub(o), n)
		}
	}
	return ""
}

func boolInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
