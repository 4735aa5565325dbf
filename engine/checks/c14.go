package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/engine/asmx"
	"verif/engine/clara"
)

// typeInfoOf reads the collector's descriptor for a type id: the word indexes holding references.
type typeDesc struct {
	Tag   int64
	Roots []int64
	Elem  bool
}

// typeTable decodes what typeInfoTable() returns.
func typeTable(p *asmx.Program) (ds []typeDesc, err error) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(asmx.Fault); ok {
				err = f
				return
			}
			panic(r)
		}
	}()
	m := asmx.NewMachine(asmx.NewWorld(nil), p)
	if x := m.Run("typeInfoTable"); x != "ret" {
		return nil, fmt.Errorf("typeInfoTable leaves by %q", x)
	}
	img := p.Data()
	for _, e := range img.Errs {
		return nil, fmt.Errorf("data section: %s", e)
	}
	at, ok := img.AddrOf(m.Reg["rax"])
	if !ok {
		return nil, fmt.Errorf("typeInfoTable returns %s", m.Reg["rax"])
	}
	n, ok := img.Int(at)
	if !ok || n&1 == 0 {
		return nil, fmt.Errorf("the type table has no tagged length")
	}
	for i := int64(0); i < n>>1; i++ {
		w, ok := img.Word(at + 8 + 8*i)
		if !ok {
			return nil, fmt.Errorf("the type table has fewer than %d entries", n>>1)
		}
		o, ok := img.Addr(w)
		if !ok {
			return nil, fmt.Errorf("type %d: no descriptor %s", i, w)
		}
		t, ok := img.Int(o)
		if !ok || t&1 == 0 {
			return nil, fmt.Errorf("type %d: descriptor has no tag", i)
		}
		d := typeDesc{Tag: t >> 1}
		switch d.Tag {
		case 0:
			nm, ok := img.Word(o + 8)
			no, ok2 := img.Addr(nm)
			if !ok || !ok2 {
				return nil, fmt.Errorf("type %d: descriptor has no name", i)
			}
			if _, _, err := img.Str(no); err != nil {
				return nil, fmt.Errorf("type %d: name: %v", i, err)
			}
			rw, ok := img.Word(o + 16)
			ro, ok2 := img.Addr(rw)
			if !ok || !ok2 {
				return nil, fmt.Errorf("type %d: descriptor has no root list", i)
			}
			k, ok := img.Int(ro)
			if !ok || k&1 == 0 {
				return nil, fmt.Errorf("type %d: root list has no tagged length", i)
			}
			for j := int64(0); j < k>>1; j++ {
				v, ok := img.Int(ro + 8 + 8*j)
				if !ok || v&1 == 0 {
					return nil, fmt.Errorf("type %d: root list entry %d is not a tagged integer", i, j)
				}
				d.Roots = append(d.Roots, v>>1)
			}
		case 2:
			nm, ok := img.Word(o + 8)
			no, ok2 := img.Addr(nm)
			if !ok || !ok2 {
				return nil, fmt.Errorf("type %d: descriptor has no name", i)
			}
			if _, _, err := img.Str(no); err != nil {
				return nil, fmt.Errorf("type %d: name: %v", i, err)
			}
			e, ok := img.Int(o + 16)
			if !ok || e < 0 || e > 1 {
				return nil, fmt.Errorf("type %d: element flag is not a boolean", i)
			}
			d.Elem = e == 1
		case 1, 3, 4:
		default:
			return nil, fmt.Errorf("type %d: unknown descriptor tag %d", i, d.Tag)
		}
		ds = append(ds, d)
	}
	return ds, nil
}

func isPtrType(t *ctype) bool { return cword(t) == "ptr" }

// checkConstructors decides every constructor of a compiled schema.
func checkConstructors(c *Ctx, rule string, s *Schema) {
	r := compileSchema(c, s.Src, nil)
	if r.Und != "" || r.Panic != "" || len(r.Errs) > 0 {
		c.Fail(rule, s.Name, r.Where, "the program does not compile: %s%s%s", r.Und, r.Panic, strings.Join(r.Errs, "; "))
		return
	}
	constructorsOf(c, rule, s.Name, asmx.Parse(r.Text), parseSchema(s.Src))
}

// constructorsOf checks the code of every constructor of a program.
func constructorsOf(c *Ctx, rule, name string, p *asmx.Program, sp *SProg) {
	ds, err := typeTable(p)
	if err != nil {
		c.Fail(rule, name, "codegen.go genTypeInfoTable", "%v", err)
		return
	}
	byID := map[int64]string{}
	one := func(cons string, params []clara.Param, enum bool, tag int64) {
		inst := name + "/" + cons
		var labels []string
		for l := range p.Labels {
			if symMatch(cons, false, l) {
				labels = append(labels, l)
			}
		}
		sort.Strings(labels)
		if len(labels) != 1 {
			c.Fail(rule, inst, "", "%d code labels %v", len(labels), labels)
			return
		}
		ci := analyseCons(p, labels[0])
		if ci.Err != "" {
			c.Fail(rule, inst, "codegen.go genConstructor", "%s", ci.Err)
			return
		}
		base := int64(0)
		if enum {
			base = 8
			if ci.Tag == nil || *ci.Tag != tag {
				c.Fail(rule, inst, "", "does not store its tag %d", tag)
				return
			}
		} else if ci.Tag != nil {
			c.Fail(rule, inst, "", "stores a constant in its first field")
			return
		}
		if ci.N != len(params) {
			c.Fail(rule, inst, "", "stores %d arguments instead of %d", ci.N, len(params))
			return
		}
		for i, o := range ci.Offs {
			if o != base+int64(8*i) {
				c.Fail(rule, inst, "", "stores argument %d at offset %d instead of %d", i+1, o, base+int64(8*i))
				return
			}
		}
		if ci.Size < base+int64(8*len(params)) || ci.Size < 8 {
			c.Fail(rule, inst, "", "allocates %d bytes for %d fields", ci.Size, len(params))
			return
		}
		if ci.ID < 0 || ci.ID >= int64(len(ds)) {
			c.Fail(rule, inst, "", "type id %d is not in the type table of %d entries", ci.ID, len(ds))
			return
		}
		if o, dup := byID[ci.ID]; dup {
			c.Fail(rule, inst, "", "has the type id %d of %s", ci.ID, o)
			return
		}
		byID[ci.ID] = cons
		d := ds[ci.ID]
		if d.Tag != 0 {
			c.Fail(rule, inst, "", "its type descriptor is not that of a structure")
			return
		}
		has := map[int64]bool{}
		for _, k := range d.Roots {
			has[k] = true
			if k < 0 || 8*k+8 > ci.Size {
				c.Fail(rule, inst, "", "the descriptor lists word %d of an object of %d bytes", k, ci.Size)
				return
			}
		}
		for i, q := range params {
			if k := (base + int64(8*i)) / 8; isPtrType(q.T) && !has[k] {
				c.Fail(rule, inst, "codegen.go genTypeInfoTable", "the collector's descriptor %d does not list field %s (word %d; it lists %v)", ci.ID, q.Name, k, d.Roots)
				return
			}
		}
		if ds, ok := p.Data().AddrOf(ci.Desc); ok {
			if _, _, err := p.Data().Str(ds); err != nil {
				c.Fail(rule, inst, "", "description: %v", err)
				return
			}
		}
		if msg := consRoots(c, p, labels[0], params); msg != "" {
			c.Fail(rule, inst, "", "%s", msg)
			return
		}
		c.Ok(rule)
		c.Sample(rule, inst)
	}
	for _, d := range sp.Decls {
		switch d.Op {
		case "struct":
			one(strings.ToUpper(d.Name[:1])+d.Name[1:], d.Params, false, 0)
		case "enum":
			for k, x := range d.Cons {
				one(x.Name, x.Params, true, int64(k))
			}
		}
	}
}

// consRoots: the arguments are roots while the constructor allocates.
func consRoots(c *Ctx, p *asmx.Program, label string, params []clara.Param) (msg string) {
	w := asmx.NewWorld(nil)
	m := asmx.NewMachine(w, p)
	for i, q := range params {
		m.Reg[argRegs[i]] = w.Word(fmt.Sprintf("p%d.%s", i, q.Name), cword(q.T))
	}
	m.Callees = func(target string, val asmx.Poly) (asmx.Callee, error) {
		return asmx.Callee{Clara: true, Result: "ptr"}, nil
	}
	if e := guard(func() { m.Run(label) }); e != "" {
		return e
	}
	return compareRoots(c, w, &Ref{W: w}, m, nil, nil, p)
}

// consSchemas are type declarations with every number of fields and every field type class at every position.
func consSchemas() []*Schema {
	cls := []string{"int", "string", "bool", "[]int", "aux", "aux2", "fn(int) int", "[]string", "opt«int»", "[][]aux", "bytes", "pair«int, string»", "fn() nothing"}
	hdr := "struct aux { i: int }\nenum aux2 { Au() Av(a: int) }\nenum opt«T» { Som(t: T) Non() }\nstruct pair«A, B» { a: A b: B }\n"
	fields := func(n, seed int) string {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, fmt.Sprintf("f%d: %s", i, cls[(seed+i*5)%len(cls)]))
		}
		return strings.Join(r, " ")
	}
	plist := func(n, seed int) string {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, fmt.Sprintf("f%d: %s", i, cls[(seed+i*5)%len(cls)]))
		}
		return strings.Join(r, ", ")
	}
	var ss []*Schema
	for seed := range cls {
		var b strings.Builder
		b.WriteString(hdr)
		for n := 0; n <= 6; n++ {
			fmt.Fprintf(&b, "struct s%d { %s }\n", n, fields(n, seed+n))
		}
		b.WriteString("fn main() {}\n")
		ss = append(ss, &Schema{fmt.Sprintf("structs %d", seed), b.String(), "", nil})
		b.Reset()
		b.WriteString(hdr)
		// enums with constructors of growing, shrinking and mixed sizes
		b.WriteString("enum up {")
		for n := 0; n <= 5; n++ {
			fmt.Fprintf(&b, " U%d(%s)", n, plist(n, seed+n))
		}
		b.WriteString(" }\nenum down {")
		for n := 5; n >= 0; n-- {
			fmt.Fprintf(&b, " D%d(%s)", n, plist(n, seed+2*n))
		}
		b.WriteString(" }\nenum flat { F0() F1() F2() }\nenum one { Uno(" + plist(2, seed) + ") }\n")
		fmt.Fprintf(&b, "struct mid { %s }\nenum tail { T0(a: int) T1(%s) T2() T3(%s) }\n", fields(3, seed), plist(1, seed), plist(4, seed+1))
		b.WriteString("fn main() {}\n")
		ss = append(ss, &Schema{fmt.Sprintf("enums %d", seed), b.String(), "", nil})
	}
	// a field of every type, between integers, and types that mention themselves and each other
	var all strings.Builder
	all.WriteString(hdr + "struct pt { x: int y: string }\nstruct qt { x: int y: string }\nenum en { Aa() Bb(n: int) }\nenum en2 { Dd() Ee(n: int) }\nenum res«T, E» { Ok(t: T) Er(e: E) }\nstruct box«T» { f: T }\n")
	for i, t := range append(append([]string{}, typeUniverse...), extraTypes...) {
		if t == "pointer" {
			continue
		}
		g := ""
		if strings.ContainsAny(t, "TU") {
			g = "«T, U»"
		}
		fmt.Fprintf(&all, "struct y%d%s { n: int v: %s m: int w: %s }\nenum z%d%s { Za%d(v: %s, n: int, w: %s) Zb%d(n: int, v: %s) Zc%d(v: %s) }\n", i, g, t, t, i, g, i, t, t, i, t, i, t)
	}
	for i, t := range []string{"#", "[]#", "[][]#", "fn(#) int", "fn() #", "opt«#»", "pair«#, int»", "pair«int, #»", "box«#»", "[]opt«#»"} {
		self := func(k string) string { return strings.ReplaceAll(t, "#", fmt.Sprintf("%s%d", k, i)) }
		fmt.Fprintf(&all, "struct rs%d { n: int a: %s b: int c: %s }\nenum re%d { Ra%d(n: int, a: %s) Rb%d(a: %s, n: int, b: %s) Rc%d() }\nstruct ms%d { n: int a: %s }\nenum me%d { Ma%d(n: int, a: %s, m: int) }\n", i, self("rs"), self("rs"), i, i, self("re"), i, self("re"), self("re"), i, i, self("me"), i, i, self("ms"))
	}
	all.WriteString("fn main() {}\n")
	ss = append(ss, &Schema{"every type", all.String(), "", nil})
	ss = append(ss, &Schema{"generics", hdr + `
struct g1«T» { a: T }
struct g2«T» { n: int a: T }
struct g3«A, B» { n: int b: B s: bool a: A xs: []A f: fn(A) B }
struct g4«A» { o: opt«A» p: pair«A, int» i: int }
enum ge«A, B» { Ga(a: A) Gb(n: int, b: B) Gc() Gd(n: int, m: int, s: string) Ge(a: A, b: B, c: bool, d: []A, e: pair«A, B») }
enum lst«T» { Nil() Cns(h: T, t: lst«T») }
struct rec { l: rec n: int r: rec }
fn main() {}
`, "", nil}, &Schema{"constructed in code", hdr + `
struct g3«A, B» { n: int b: B a: A }
enum ge«A, B» { Ga(a: A) Gb(n: int, b: B) }
fn main() { x := G3(1, "s", 2) y := G3«string, int»(1, 2, "t") z := Ga«int, string»(1) w := Gb«string, int»(1, 2) q := Pair(Som(1), Aux(3)) k := fn(i: int) int = i + x.n l := k(2) }
`, "", nil})
	return ss
}

// placeSchemas construct, read and write every field at every position, and array literals.
func placeSchemas(rule string) []*Schema {
	hdr := `
struct s1 { a: int }
struct s2 { a: string b: int }
struct s3 { a: bool b: string c: s2 }
struct s4 { a: int b: []int c: fn(int) int d: string }
struct s5 { a: en b: int c: opt«int» d: bool e: s4 }
struct s6 { a: int b: string c: int d: string e: int f: s6 }
struct s0 { }
struct b1«T» { v: T }
struct b2«A, B» { n: int b: B a: A }
struct b3«T» { o: opt«T» xs: []T p: b2«T, string» }
enum wide { W0() W1(a: int) W2(a: string, b: int) W3(a: int, b: int, c: int) W4(a: bool, b: string, c: int, d: s1) W5(a: int, b: string, c: int, d: string, e: int) }
fn g1() s1
fn g2() s2
fn g3() s3
fn g4() s4
fn g5() s5
fn g6() s6
fn gb1() b1«string»
fn gb2() b2«string, int»
fn gb3() b3«int»
fn ubs(x: b1«string») nothing
fn ubi(x: b1«int») nothing
`
	var fs []nsrc
	structs := []struct {
		n  string
		fs [][2]string
	}{
		{"s1", [][2]string{{"a", "int"}}}, {"s2", [][2]string{{"a", "string"}, {"b", "int"}}}, {"s3", [][2]string{{"a", "bool"}, {"b", "string"}, {"c", "s2"}}},
		{"s4", [][2]string{{"a", "int"}, {"b", "[]int"}, {"c", "fn(int) int"}, {"d", "string"}}}, {"s5", [][2]string{{"a", "en"}, {"b", "int"}, {"c", "opt«int»"}, {"d", "bool"}, {"e", "s4"}}},
		{"s6", [][2]string{{"a", "int"}, {"b", "string"}, {"c", "int"}, {"d", "string"}, {"e", "int"}, {"f", "s6"}}},
		{"b1«int»", [][2]string{{"v", "int"}}}, {"b1«string»", [][2]string{{"v", "string"}}}, {"b2«string, int»", [][2]string{{"n", "int"}, {"b", "int"}, {"a", "string"}}},
		{"b2«int, bool»", [][2]string{{"n", "int"}, {"b", "bool"}, {"a", "int"}}}, {"b3«string»", [][2]string{{"o", "opt«string»"}, {"xs", "[]string"}, {"p", "b2«string, string»"}}},
	}
	for _, st := range structs {
		for _, f := range st.fs {
			fs = append(fs, nsrc{"read " + st.n + "." + f[0], fmt.Sprintf("fn @(v: %s) %s = v.%s", st.n, f[1], f[0])},
				nsrc{"write " + st.n + "." + f[0], fmt.Sprintf("fn @(v: %s, x: %s) { v.%s = x }", st.n, f[1], f[0])},
				nsrc{"write and read " + st.n + "." + f[0], fmt.Sprintf("fn @(v: %s, x: %s) %s { v.%s = x return v.%s }", st.n, f[1], f[1], f[0], f[0])})
		}
	}
	fs = append(fs,
		nsrc{"generic read", `fn @«A, B»(v: b2«A, B») A = v.a`}, nsrc{"generic read 2", `fn @«A, B»(v: b2«A, B») B = v.b`}, nsrc{"generic write", `fn @«A, B»(v: b2«A, B», a: A, b: B) { v.b = b v.a = a v.n = 3 }`},
		nsrc{"nested generic read", `fn @(v: b3«int») int = v.p.a + v.xs[1]`}, nsrc{"nested generic write", `fn @(v: b3«int») { v.p.b = "q" v.xs[2] = 4 }`},
		nsrc{"construct 1", `fn @() s1 = S1(e1())`}, nsrc{"construct 2", `fn @() s2 = S2(es(), e1())`}, nsrc{"construct 3", `fn @() s3 = S3(eb(), es(), S2("x", e1()))`},
		nsrc{"construct 4", `fn @() s4 = S4(e1(), [e1(), e2()], twice, "d")`}, nsrc{"construct 5", `fn @() s5 = S5(Bb(e1()), e2(), Som(e1()), eb(), g4())`}, nsrc{"construct 6", `fn @() s6 = S6(1, "2", e1(), es(), e2(), g6())`},
		nsrc{"construct 0", `fn @() s0 = S0()`}, nsrc{"construct generic", `fn @() { ubs(B1(es())) ubi(B1(e1())) x := B2(e1(), es(), e2()) use(x.n) uses(x.b) use(x.a) }`},
		nsrc{"construct enum", `fn @() { x := W5(e1(), es(), e2(), "t", 5) y := W4(eb(), es(), e1(), g1()) z := W3(1, e1(), 3) match x { case W0(): use(0) case W1(a): use(a) case W2(a, b): use(b) case W3(a, b, c): use(c) case W4(a, b, c, d): use(d.a) case W5(a, b, c, d, e): use(e) } }`},
		nsrc{"construct and use", `fn @() int { p := S2(es(), e1()) p.b = p.b + 1 p.a = es() return p.b + lens(p.a) }`},
		nsrc{"field of call", `fn @() int = g3().c.b`}, nsrc{"field of field write", `fn @() { g3().c.b = e1() }`}, nsrc{"element of field", `fn @() int = g5().e.b[e1()]`}, nsrc{"element of field write", `fn @() { g5().e.b[e1()] = e2() }`},
		nsrc{"length", `fn @(a: []string, s: string) int = a.length + s.length`}, nsrc{"length of field", `fn @() int = g4().b.length + g4().d.length`},
	)
	elems := []struct{ t, a, b string }{{"int", "e1()", "7"}, {"string", "es()", `"k"`}, {"bool", "eb()", "true"}, {"pt", "ep()", "mkp(1)"}, {"[]int", "ea()", "mka(2)"}, {"en", "ee()", "Aa()"}, {"fn(int) int", "ef()", "twice"}, {"s2", "g2()", "S2(es(), 1)"}}
	for _, e := range elems {
		for n := 1; n <= 8; n++ {
			if n > 4 && e.t != "int" && e.t != "string" {
				continue
			}
			var xs []string
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					xs = append(xs, e.a)
				} else {
					xs = append(xs, e.b)
				}
			}
			fs = append(fs, nsrc{fmt.Sprintf("%d elements of %s", n, e.t), fmt.Sprintf("fn @() []%s = [%s]", e.t, strings.Join(xs, ", "))})
		}
		fs = append(fs, nsrc{"element read of " + e.t, fmt.Sprintf("fn @(a: []%s, i: int) %s = a[i]", e.t, e.t)},
			nsrc{"element write of " + e.t, fmt.Sprintf("fn @(a: []%s, i: int, v: %s) { a[i] = v }", e.t, e.t)},
			nsrc{"constant index of " + e.t, fmt.Sprintf("fn @(a: []%s, v: %s) %s { a[2] = v return a[2] }", e.t, e.t, e.t)})
	}
	fs = append(fs, nsrc{"generic element", `fn @«T»(a: []T, i: int, v: T) T { a[i] = v return a[i] }`}, nsrc{"generic literal", `fn @«T»(v: T, w: T) []T = [v, w, v]`},
		nsrc{"nested literal", `fn @() [][]int = [[e1(), 2], [3], mka(4)]`}, nsrc{"literal element", `fn @() int = [e1(), e2(), 3][e1()]`}, nsrc{"literal argument", `fn @() int = suma([e1(), 2]) + cnts(["a", es(), "c"])`})
	return fnSchemas(rule, hdr, fs, 12)
}

func init() {
	Registry["C14"] = func(c *Ctx) {
		cs := append(consSchemas(), manyTypes(40), manyTypes(300))
		c.Parallel(len(cs), func(c *Ctx, i int) { checkConstructors(c, "constructor", cs[i]) })
		c.runSchemas(placeSchemas("place"), cgOpts{Semantics: true})
		c.runSchemas(fnSchemas("many elements", "", manyElements(c.Thorough), 4), cgOpts{Semantics: true, Visits: 400})
		c.Min("many elements", 24)
		c.runSchemas(fnSchemas("many constructors", "", manyCases(c.Thorough), 4), cgOpts{Semantics: true, Visits: 400})
		if p, lib := libProgram(c, "library", libMain); p != nil {
			constructorsOf(c, "library types", "library", p, lib)
			if ds, err := typeTable(p); err == nil {
				libObjects(c, "library objects", lib, ds)
			}
			checkShapes(c, "library", lib)
		}
		c.Min("constructor", 400)
		c.Min("place", 150)
	}
}
