package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/engine/asmx"
	"verif/engine/clara"
)

// libCalls lists the library functions a function's body calls, by name and number of arguments.
func libCalls(p *SProg, d *clara.Decl) []*clara.Decl {
	seen := map[*clara.Decl]bool{}
	var r []*clara.Decl
	add := func(n string, k int) {
		for _, f := range p.Fns[n] {
			if len(f.Params) == k && f.Op == "fn" && !f.Extern && !seen[f] {
				seen[f] = true
				r = append(r, f)
			}
		}
	}
	walkDecl(d, func(x *clara.Expr) {
		switch {
		case x.Op == "call" && x.K[0].Op == "id":
			add(x.K[0].Val, len(x.K)-1)
		case x.Op == "mcall":
			add(x.Val, len(x.K))
		case x.Op == "id":
			for _, f := range p.Fns[x.Val] {
				add(x.Val, len(f.Params))
			}
		}
	})
	return r
}

// walkDecl visits every expression of a function.
func walkDecl(d *clara.Decl, f func(x *clara.Expr)) {
	var ex func(x *clara.Expr)
	var st func(ss []*clara.Stmt)
	ex = func(x *clara.Expr) {
		if x == nil {
			return
		}
		f(x)
		if x.Fn != nil {
			ex(x.Fn.Expr)
			st(x.Fn.Body)
		}
		for i, k := range x.K {
			if i == 0 && x.Op == "call" && k.Op == "id" {
				continue
			}
			ex(k)
		}
	}
	st = func(ss []*clara.Stmt) {
		for _, s := range ss {
			ex(s.X)
			ex(s.L)
			ex(s.To)
			for _, c := range s.Conds {
				ex(c)
			}
			for _, b := range s.Body {
				st(b)
			}
			for _, c := range s.Cases {
				st(c.Body)
			}
		}
	}
	ex(d.Expr)
	st(d.Body)
}

func reachDecls(p *SProg, d *clara.Decl) map[*clara.Decl]bool {
	r := map[*clara.Decl]bool{}
	var walk func(d *clara.Decl)
	walk = func(d *clara.Decl) {
		for _, c := range libCalls(p, d) {
			if !r[c] {
				r[c] = true
				walk(c)
			}
		}
	}
	walk(d)
	return r
}

// libFn finds a library function the compiler resolves by name.
func libFn(p *SProg, name string) *clara.Decl {
	for _, d := range p.Fns[name] {
		if d.Op == "fn" {
			return d
		}
	}
	panic(AnchorError{"library function " + name})
}

// marker is the collector's recursive function, entered from outside its cycle.
func marker(p *SProg, alloc *clara.Decl) (*clara.Decl, int) {
	reach := reachDecls(p, alloc)
	cyc := map[*clara.Decl]bool{}
	for d := range reach {
		if reachDecls(p, d)[d] {
			cyc[d] = true
		}
	}
	var in []*clara.Decl
	for d := range reach {
		if !cyc[d] {
			for _, c := range libCalls(p, d) {
				if cyc[c] && callsExtern(p, c, "typeInfoTable") {
					in = append(in, c)
				}
			}
		}
	}
	var pick *clara.Decl
	for _, d := range in {
		if pick != nil && pick != d {
			return nil, 0
		}
		pick = d
	}
	if pick == nil {
		return nil, 0
	}
	for i, q := range pick.Params {
		if q.T.Name == "pointer" {
			return pick, i
		}
	}
	return nil, 0
}

// callsExtern reports whether d reaches a call of an external function.
func callsExtern(p *SProg, d *clara.Decl, names ...string) bool {
	ds := reachDecls(p, d)
	ds[d] = true
	found := false
	for x := range ds {
		walkDecl(x, func(e *clara.Expr) {
			n := e.Val
			if e.Op == "call" && e.K[0].Op == "id" {
				n = e.K[0].Val
			}
			if (e.Op == "call" || e.Op == "mcall" || e.Op == "id") && hasStr(names, n) {
				found = true
			}
		})
	}
	return found
}

// entryRun checks how a program starts.
func entryRun(c *Ctx, lib *SProg) {
	d := libFn(lib, "entrypoint")
	lib.Fns["main"] = []*clara.Decl{{Op: "fn", Name: "main", Extern: true}}
	defer delete(lib.Fns, "main")
	rule, where := "program start", d.File+":"+d.Name
	steps := []string{"setStackBase", "setRuntime", "main"}
	var fp asmx.Poly
	n, complete := exploreLib(lib, d, func(l *libRun) []SV {
		fp = l.obj("FP")
		l.hooks["getFramePointer"] = func(l *libRun, x *clara.Decl, vs []SV) (SV, bool) {
			if l.cur() != d {
				return SV{P: l.obj("FP." + l.cur().Name)}, true
			}
			return SV{P: fp}, true
		}
		for f := range reachDecls(lib, d) {
			if !callsExtern(lib, f, steps...) {
				l.fnHooks[f] = func(l *libRun, x *clara.Decl, vs []SV) (SV, bool) {
					l.Ev = append(l.Ev, LEvent{Kind: "lib", Name: x.Name, In: l.cur()})
					return SV{P: l.newObj(konst(0), x.Name)}, true
				}
			}
		}
		return l.params(d)
	}, 64, func(x *libPath) {
		if !c.Check(x.Exit == "return", rule, "entrypoint", where, "%s %s", x.Exit, x.Msg) {
			return
		}
		var order []string
		for _, e := range x.L.Ev {
			switch {
			case e.Kind == "call" && hasStr(steps, e.Name):
				order = append(order, e.Name)
				if e.Name == "setStackBase" {
					c.Check(len(e.Args) == 1 && e.Args[0].Eq(fp), rule, "stack base", where, "the stack base is %v, not the entry function's frame", e.Args)
				}
				if e.Name == "setRuntime" {
					_, isNew := x.L.mem[e.Args[0].Key()]
					c.Check(len(e.Args) == 1 && isNew, rule, "runtime", where, "the runtime data is %v", e.Args)
				}
			case e.Kind == "alloc" || e.Kind == "lib":
				c.Check(hasStr(order, "setStackBase"), rule, "allocation before the stack base", where, "%s may allocate before the stack base is set", e.Name)
			}
		}
		c.Check(strings.Join(order, " ") == "setStackBase setRuntime main", rule, "order", where, "the start is %v", order)
	})
	c.Traces += n
	if !complete {
		c.Fail(rule, "entrypoint", where, "undecided: more than %d paths", n)
	}
}

type heapShape struct {
	marks  []bool // blocks of the heap list
	frames []int  // root counts, innermost first
	fail   bool   // allocation fails
}

func (h heapShape) String() string {
	var b []string
	for _, m := range h.marks {
		if m {
			b = append(b, "marked")
		} else {
			b = append(b, "unmarked")
		}
	}
	s := fmt.Sprintf("heap [%s], frames with %v roots", strings.Join(b, " "), h.frames)
	if h.fail {
		s += ", no memory"
	}
	return s
}

func konst(n int64) asmx.Poly { return asmx.Const(n) }

const typeShift = 47

// header is a block header's word.
func headerWord(id asmx.Poly, ro, mark bool) asmx.Poly {
	v := id.Scale(1 << typeShift)
	if ro {
		v = v.Add(konst(2))
	}
	if mark {
		v = v.Add(konst(1))
	}
	return tagW(v)
}

func sameSet(w *asmx.World, got, want []asmx.Poly) (string, bool) {
	g, x := map[string]bool{}, map[string]bool{}
	for _, p := range got {
		g[p.Key()] = true
	}
	for _, p := range want {
		x[p.Key()] = true
		if !g[p.Key()] {
			return "does not mark " + p.String(), false
		}
	}
	for _, p := range got {
		if !x[p.Key()] {
			return "marks " + p.String() + ", which is not a root", false
		}
	}
	return "", true
}

func (l *libRun) calls1(name string) []LEvent {
	var r []LEvent
	for _, e := range l.Ev {
		if e.Kind == "call" && e.Name == name {
			r = append(r, e)
		}
	}
	return r
}

// allocRun interprets the allocator on a heap and stack shape.
func allocRun(c *Ctx, lib *SProg, alloc, mark *clara.Decl, mi int, h heapShape) {
	inst := h.String()
	where := alloc.File + ":" + alloc.Name
	var blocks, roots []asmx.Poly
	var fresh, id, size asmx.Poly
	setup := func(l *libRun) []SV {
		blocks, roots = nil, nil
		for i := range h.marks {
			blocks = append(blocks, l.obj(fmt.Sprintf("B%d", i)))
		}
		head := konst(0)
		for i, b := range blocks {
			next := konst(0)
			if i+1 < len(blocks) {
				next = blocks[i+1]
			}
			l.set(b, next)
			l.set(b.Add(konst(8)), headerWord(l.num(fmt.Sprintf("id%d", i), 0, 1<<15-1), false, h.marks[i]))
		}
		if len(blocks) > 0 {
			head = blocks[0]
		}
		headCell := asmx.Atom("heap")
		l.set(headCell, head)
		// stack: frame k holds the caller's frame and a return address whose word is the caller's root list
		var frames []asmx.Poly
		for k := 0; k <= len(h.frames); k++ {
			frames = append(frames, l.obj(fmt.Sprintf("F%d", k)))
		}
		for k, n := range h.frames {
			ra, rm := l.obj(fmt.Sprintf("RA%d", k)), l.obj(fmt.Sprintf("R%d", k))
			l.set(frames[k], frames[k+1])
			l.set(frames[k].Add(konst(8)), ra)
			l.set(ra, rm)
			l.set(rm, tagW(konst(int64(n))))
			for j := 0; j < n; j++ {
				off := l.num(fmt.Sprintf("off%d.%d", k, j), 1, 1<<20)
				l.set(rm.Add(konst(int64(8+8*j))), tagW(off))
				slot := l.obj(fmt.Sprintf("slot%d.%d", k, j))
				l.set(frames[k+1].Sub(off.Scale(8)), slot)
				roots = append(roots, slot)
			}
		}
		base := frames[len(frames)-1]
		rt := l.obj("RT")
		roots = append(roots, rt)
		l.hooks["getFramePointer"] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) { return SV{P: frames[0]}, true }
		l.hooks["isStackBase"] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) {
			if vs[0].P.Eq(base) {
				return SV{P: konst(1)}, true
			}
			return SV{P: konst(0)}, true
		}
		l.hooks["getRuntime"] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) { return SV{P: rt}, true }
		l.hooks["getBlocks"] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) { return SV{P: l.load(headCell, "ptr")}, true }
		l.hooks["setBlocks"] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) {
			l.store(headCell, vs[0].P)
			return SV{P: konst(0)}, true
		}
		l.hooks["free"] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) {
			a := l.rawArgs(d, vs)[0]
			l.touch(a, "frees")
			l.Ev = append(l.Ev, LEvent{Kind: "call", Name: "free", Args: []asmx.Poly{a}, In: l.cur()})
			l.Freed[a.Key()] = true
			return SV{P: konst(0)}, true
		}
		fresh = l.obj("NEW")
		if h.fail {
			fresh = konst(0)
		}
		l.hooks["calloc"] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) {
			l.Ev = append(l.Ev, LEvent{Kind: "call", Name: "calloc", Args: l.rawArgs(d, vs), In: l.cur()})
			if !h.fail {
				l.set(fresh, konst(0))
				l.set(fresh.Add(konst(8)), konst(0))
			}
			return SV{P: fresh}, true
		}
		l.fnHooks[mark] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) {
			l.Ev = append(l.Ev, LEvent{Kind: "mark", Addr: vs[mi].P, In: l.cur()})
			return SV{P: konst(0)}, true
		}
		l.Bound = 6
		size, id = l.num("size", 1, 1<<52), l.num("id", 0, 1<<15-1)
		desc := l.obj("desc")
		var vs []SV
		ints := []asmx.Poly{size, id}
		for _, p := range alloc.Params {
			if p.T.Name == "int" && len(ints) > 0 {
				vs = append(vs, SV{tagW(ints[0]), p.T})
				ints = ints[1:]
			} else {
				vs = append(vs, SV{desc, p.T})
			}
		}
		return vs
	}
	n, complete := exploreLib(lib, alloc, setup, 64, func(x *libPath) {
		l := x.L
		bad := func(rule, f string, a ...interface{}) { c.Fail(rule, inst, where, f, a...) }
		if x.Exit == "fault" || x.Exit == "cut" {
			bad("allocation", "%s %s", x.Exit, x.Msg)
			return
		}
		var marks []asmx.Poly
		frees := 0
		var order []string
		for _, e := range l.Ev {
			switch {
			case e.Kind == "mark":
				marks = append(marks, e.Addr)
				order = append(order, "mark")
			case e.Kind == "call" && e.Name == "free":
				frees++
				order = append(order, "free")
			case e.Kind == "call" && e.Name == "calloc":
				order = append(order, "calloc")
			case e.Kind == "alloc":
				bad("no allocation inside the collector", "%s allocates a %s", e.In.Name, e.Name)
				return
			}
		}
		if msg, ok := sameSet(l.W, marks, roots); !c.Check(ok, "roots", inst, where, "the collection %s", msg) {
			return
		}
		rank := map[string]int{"mark": 0, "free": 1, "calloc": 2}
		c.Check(sort.SliceIsSorted(order, func(i, j int) bool { return rank[order[i]] < rank[order[j]] }) && hasStr(order, "calloc"),
			"order of phases", inst, where, "marking, releasing and allocating happen in the order %v", order)
		var live []asmx.Poly
		for i, b := range blocks {
			if h.marks[i] {
				live = append(live, b)
				c.Check(!l.Freed[b.Key()], "release", inst, where, "marked block %d is freed", i)
			} else {
				c.Check(l.Freed[b.Key()], "release", inst, where, "unmarked block %d is not freed", i)
			}
		}
		c.Check(frees == len(blocks)-len(live), "release", inst, where, "%d blocks are freed, %d are unmarked", frees, len(blocks)-len(live))
		// the heap list
		if x.Exit == "return" && !h.fail {
			live = append([]asmx.Poly{fresh}, live...)
		}
		at := l.mem["heap"]
		if v, ok := l.mem[asmx.Atom("heap").Key()]; ok {
			at = v
		}
		for i, b := range live {
			if !c.Check(at.Eq(b), "heap list", inst, where, "entry %d of the heap list is %s, not %s", i, at, b) {
				return
			}
			at = l.mem[b.Key()]
		}
		c.Check(at.Eq(konst(0)), "heap list", inst, where, "the heap list goes on with %s", at)
		for i, b := range blocks {
			if h.marks[i] {
				hd := l.mem[b.Add(konst(8)).Key()]
				want := headerWord(asmx.Atom(fmt.Sprintf("id%d", i)), false, false)
				c.Check(l.W.Eq(hd, want), "marks are cleared", inst, where, "header of block %d is %s, not %s", i, hd, want)
			}
		}
		if h.fail {
			c.Check(x.Exit == "stop", "failed allocation", inst, where, "the program goes on without memory")
			return
		}
		if !c.Check(x.Exit == "return", "allocation", inst, where, "the program is stopped: %s", l.Stop) {
			return
		}
		c.Check(x.Ret.Eq(fresh.Add(konst(16))), "new object", inst, where, "the object is %s, not the block's payload", x.Ret)
		hd := l.mem[fresh.Add(konst(8)).Key()]
		c.Check(l.W.Eq(hd, headerWord(id, false, false)), "new object", inst, where, "the header is %s, not %s", hd, headerWord(id, false, false))
		cs := l.calls1("calloc")
		if c.Check(len(cs) == 1 && len(cs[0].Args) == 2, "new object", inst, where, "%d allocations", len(cs)) {
			got := l.W.Mul(cs[0].Args[0], cs[0].Args[1])
			k, ok := got.Sub(size).IsConst()
			c.Check(ok && k >= 16, "new object", inst, where, "allocates %s bytes for an object of %s", got, size)
		}
		c.Sample("allocation", inst)
	})
	c.Traces += n
	if !complete {
		c.Fail("allocation", inst, where, "undecided: more than %d paths", n)
	}
}

func hasStr(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// markRun interprets the marking function on one class of word.
type markShape struct {
	kind string // odd null object
	ro   bool
	mk   bool
	tag  int64
	n    int
	elem bool
}

func (m markShape) String() string {
	if m.kind != "object" {
		return m.kind + " word"
	}
	names := []string{"struct or enum", "string", "array", "function", "bytes"}
	s := names[m.tag]
	if m.tag == 2 {
		s += fmt.Sprintf(" of %d elements (references: %v)", m.n, m.elem)
	} else if m.tag == 0 {
		s += fmt.Sprintf(" with %d references", m.n)
	}
	if m.ro {
		s = "read-only " + s
	}
	if m.mk {
		s = "marked " + s
	}
	return s
}

func markRun(c *Ctx, lib *SProg, mark *clara.Decl, mi int, sh markShape) {
	inst := sh.String()
	where := mark.File + ":" + mark.Name
	var p asmx.Poly
	var kids []asmx.Poly
	setup := func(l *libRun) []SV {
		kids = nil
		switch sh.kind {
		case "odd":
			p = asmx.Atom("q").Scale(2).Add(konst(1))
		case "null":
			p = konst(0)
		default:
			p = l.obj("P")
			id := l.num("ID", 0, 1<<15-1)
			l.set(p.Sub(konst(8)), headerWord(id, sh.ro, sh.mk))
			t, info := l.obj("T"), l.obj("INFO")
			count := l.num("types", 1, 1<<15)
			l.set(t, tagW(count))
			l.set(t.Add(konst(8)).Add(id.Scale(8)), info)
			l.hooks["typeInfoTable"] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) { return SV{P: t}, true }
			l.set(info, tagW(konst(sh.tag)))
			l.set(info.Add(konst(8)), l.obj("NAME"))
			switch sh.tag {
			case 0:
				rs := l.obj("ROOTS")
				l.set(info.Add(konst(16)), rs)
				l.set(rs, tagW(konst(int64(sh.n))))
				for i := 0; i < sh.n; i++ {
					r := l.num(fmt.Sprintf("root%d", i), 0, 64)
					l.set(rs.Add(konst(int64(8+8*i))), tagW(r))
					k := l.obj(fmt.Sprintf("kid%d", i))
					l.set(p.Add(r.Scale(8)), k)
					kids = append(kids, k)
				}
			case 2:
				e := konst(0)
				if sh.elem {
					e = konst(1)
				}
				l.set(info.Add(konst(16)), e)
				l.set(p, tagW(konst(int64(sh.n))))
				for i := 0; i < sh.n; i++ {
					k := l.obj(fmt.Sprintf("kid%d", i))
					l.set(p.Add(konst(int64(8+8*i))), k)
					if sh.elem {
						kids = append(kids, k)
					}
				}
			}
		}
		l.Bound = 6
		l.fnHooks[mark] = func(l *libRun, d *clara.Decl, vs []SV) (SV, bool) {
			l.Ev = append(l.Ev, LEvent{Kind: "mark", Addr: vs[mi].P, In: l.cur()})
			return SV{P: konst(0)}, true
		}
		vs := l.params(mark)
		vs[mi].P = p
		return vs
	}
	n, complete := exploreLib(lib, mark, setup, 256, func(x *libPath) {
		l := x.L
		if sh.kind == "object" {
			// the object's type is one of the table's
			if v, err := l.W.Truth(l.W.Ult(asmx.Atom("ID"), asmx.Atom("types"))); err == nil && !v {
				return
			}
		}
		bad := func(rule, f string, a ...interface{}) { c.Fail(rule, inst, where, f, a...) }
		if x.Exit == "fault" || x.Exit == "cut" {
			bad("marking", "%s %s", x.Exit, x.Msg)
			return
		}
		if !c.Check(x.Exit == "return", "marking", inst, where, "the program is stopped: %s", l.Stop) {
			return
		}
		var stores, marks []LEvent
		var got []asmx.Poly
		first := -1
		mem := 0
		for i, e := range l.Ev {
			switch {
			case e.Kind == "store":
				stores = append(stores, e)
				if len(marks) > 0 {
					bad("marked before its references", "%s writes %s after following a reference", e.In.Name, e.Addr)
					return
				}
			case e.Kind == "mark":
				marks = append(marks, e)
				got = append(got, e.Addr)
				if first < 0 {
					first = i
				}
			case e.Kind == "load" && strings.Contains(e.Addr.Key(), "q"):
				mem++
			case e.Kind == "load" && sh.kind == "null":
				mem++
			case e.Kind == "alloc":
				bad("no allocation inside the collector", "%s allocates a %s", e.In.Name, e.Name)
				return
			case e.Kind == "call" && e.Name != "debug":
				bad("marking", "calls %s", e.Name)
				return
			}
		}
		if sh.kind != "object" {
			c.Check(mem == 0 && len(stores) == 0 && len(marks) == 0, "words that are not objects are left alone", inst, where, "%d reads, %d writes, %d references followed", mem, len(stores), len(marks))
			return
		}
		if sh.ro || sh.mk {
			c.Check(len(stores) == 0 && len(marks) == 0, "read-only and marked objects are left alone", inst, where, "%d writes, %d references followed", len(stores), len(marks))
			return
		}
		hk := p.Sub(konst(8))
		for _, s := range stores {
			if !c.Check(s.Addr.Eq(hk), "marking", inst, where, "writes %s", s.Addr) {
				return
			}
		}
		want := headerWord(asmx.Atom("ID"), false, true)
		c.Check(l.W.Eq(l.mem[hk.Key()], want), "marking", inst, where, "the header becomes %s, not %s", l.mem[hk.Key()], want)
		msg, ok := sameSet(l.W, got, kids)
		c.Check(ok, "references are followed", inst, where, "%s", msg)
		c.Sample("references are followed", inst)
	})
	c.Traces += n
	if !complete {
		c.Fail("marking", inst, where, "undecided: more than %d paths", n)
	}
}

func init() {
	Registry["C23"] = func(c *Ctx) {
		collectorRules(c, loadLib(c))
		cns := consSchemas()
		c.Parallel(len(cns), func(c *Ctx, i int) { checkConstructors(c, "type descriptors", cns[i]) })
	}
}

// collectorRules decides what the library's allocator, collector and start-up code do.
func collectorRules(c *Ctx, lib *SProg) {
	alloc := libFn(lib, "claralloc")
	mark, mi := marker(lib, alloc)
	if mark == nil {
		panic(AnchorError{"the collector's recursive marking function"})
	}
	cs := loadC(c)
	cellPair(c, cs, "setBlocks", "getBlocks", "CELL")
	cellPair(c, cs, "setRuntime", "getRuntime", "CELL")
	cellPair(c, cs, "setStackBase", "isStackBase", "CELL==arg0")
	entryRun(c, lib)
	nb, nf := 3, 2
	if c.Thorough {
		nb, nf = 5, 3
	}
	var lists [][]bool
	for n := 0; n <= nb; n++ {
		for v := 0; v < 1<<uint(n); v++ {
			var m []bool
			for i := 0; i < n; i++ {
				m = append(m, v>>uint(i)&1 == 1)
			}
			lists = append(lists, m)
		}
	}
	var stacks [][]int
	var grow func(s []int)
	grow = func(s []int) {
		stacks = append(stacks, append([]int(nil), s...))
		if len(s) < nf {
			for n := 0; n <= 2; n++ {
				grow(append(append([]int(nil), s...), n))
			}
		}
	}
	grow(nil)
	for _, m := range lists {
		for _, s := range stacks {
			for _, f := range []bool{false, true} {
				if f && (len(m) > 2 || len(s) > 1) {
					continue
				}
				allocRun(c, lib, alloc, mark, mi, heapShape{m, s, f})
			}
		}
	}
	markRun(c, lib, mark, mi, markShape{kind: "odd"})
	markRun(c, lib, mark, mi, markShape{kind: "null"})
	for tag := int64(0); tag < 5; tag++ {
		ns := []int{0}
		if tag == 0 || tag == 2 {
			ns = []int{0, 1, 2, 3}
		}
		for _, n := range ns {
			for v := 0; v < 4; v++ {
				sh := markShape{kind: "object", tag: tag, n: n, ro: v&1 == 1, mk: v&2 == 2}
				if tag == 3 && !sh.ro {
					continue // functions are read-only
				}
				markRun(c, lib, mark, mi, sh)
				if tag == 2 {
					sh.elem = true
					markRun(c, lib, mark, mi, sh)
				}
			}
		}
	}
}
