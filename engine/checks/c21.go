package checks

import (
	"fmt"
	"strings"
	"verif/engine/asmx"
)

// overloadTypes differ pairwise, in every constituent the language distinguishes overloads by.
func overloadTypes() []string {
	var r []string
	seen := map[string]bool{}
	for _, t := range typeUniverse {
		if strings.ContainsAny(t, "TU") || t == "pointer" {
			continue
		}
		k := t
		if strings.HasPrefix(t, "fn(") {
			k = t[:strings.LastIndex(t, ")")] // overloads are told apart by parameters of function types only
		}
		if strings.HasSuffix(t, "]fn(int) int") || strings.Contains(t, ") fn(") || strings.HasPrefix(t, "fn(int) ") && t != "fn(int) int" {
			continue
		}
		if !seen[k] {
			seen[k] = true
			r = append(r, t)
		}
	}
	return append(r, "[][]string", "[]box«int»", "box«[]string»", "pair«[]int, int»", "pair«int, []int»", "opt«box«int»»", "box«opt«int»»", "fn([]int, int) int", "fn(int, []int) int", "[]pair«int, string»")
}

func overloadSchemas(rule string) []*Schema {
	var ss []*Schema
	ts := overloadTypes()
	build := func(name string, decls, body []string) {
		src := shdr + "struct box«T» { f: T }\nstruct pair«A, B» { a: A b: B }\nenum en2 { Dd() Ee(n: int) }\nenum res«T, E» { Ok(t: T) Er(e: E) }\nfn un(n: int) nothing\n" + strings.Join(decls, "\n") + "\n" + strings.Join(body, "\n") + "\nfn main() {}\n"
		ss = append(ss, &Schema{name, src, rule, nil})
	}
	// every single-parameter overload in one program
	var ds, bs []string
	for i, t := range ts {
		ds = append(ds, fmt.Sprintf("fn ov(x: %s) int = %d", t, i+100))
		bs = append(bs, fmt.Sprintf("fn c%d(x: %s) int = ov(x) + %d", i, t, 1000+i), fmt.Sprintf("fn m%d(x: %s) { un(x.ov()) un(%d) }", i, t, 2000+i))
	}
	build("overloads of one parameter", ds, bs)
	// pairs of parameters
	ds, bs = nil, nil
	for i, t := range ts {
		for j, u := range ts {
			if (i*7+j)%3 != 0 {
				continue
			}
			k := len(ds)
			ds = append(ds, fmt.Sprintf("fn ov(x: %s, y: %s) int = %d", t, u, k+5000))
			bs = append(bs, fmt.Sprintf("fn c%d(x: %s, y: %s) int = ov(x, y) + %d", k, t, u, 9000+k))
		}
	}
	for i := 0; i < len(ds); i += 60 {
		e := i + 60
		if e > len(ds) {
			e = len(ds)
		}
		build(fmt.Sprintf("overloads of two parameters, from %d", i), ds[i:e], bs[i:e])
	}
	// counts
	ds, bs = nil, nil
	for n := 0; n <= 6; n++ {
		ds = append(ds, fmt.Sprintf("fn ov(%s) int = %d", seq(n, "p#: int", ", "), 70+n), fmt.Sprintf("fn zz(%s) int = %d", seq(n, "p#: string", ", "), 80+n))
		bs = append(bs, fmt.Sprintf("fn c%d() int = ov(%s) + %d", n, seq(n, "#", ", "), 500+n), fmt.Sprintf("fn d%d() int = zz(%s) - %d", n, seq(n, "es()", ", "), 600+n))
	}
	build("overloads by count", ds, bs)
	// overloads as values, chosen by the parameter they are passed for
	ds, bs = nil, nil
	for i, t := range ts {
		if strings.HasPrefix(t, "fn(") {
			continue
		}
		ds = append(ds, fmt.Sprintf("fn ov(x: %s) int = %d", t, i+100), fmt.Sprintf("fn hof%d(f: fn(%s) int, x: %s) int = f(x) + %d", i, t, t, 300+i))
		bs = append(bs, fmt.Sprintf("fn c%d(x: %s) int = hof%d(ov, x) + %d", i, t, i, 1000+i), fmt.Sprintf("fn g%d(x: %s) int = gap(x, ov) + %d", i, t, 2000+i))
	}
	ds = append(ds, "fn gap«X»(x: X, f: fn(X) int) int = f(x)")
	build("overloads as values", ds, bs)
	// constructors
	ds, bs = nil, nil
	for i := 0; i < 12; i++ {
		ds = append(ds, fmt.Sprintf("struct sa%d { a: int b: string }", i), fmt.Sprintf("enum ea%d { Ea%d(a: int) Eb%d(a: int) }", i, i, i))
		bs = append(bs, fmt.Sprintf("fn c%d(s: string) { x := Sa%d(%d, s) y := Ea%d(%d) z := Eb%d(%d) un(x.a) }", i, i, i+30, i, i+50, i, i+70),
			fmt.Sprintf("fn v%d() { f := Ea%d g := Eb%d un(%d) f(%d) g(%d) }", i, i, i, i+900, i+10, i+20))
	}
	build("constructors", ds, bs)
	// literals with the same text
	ds, bs = nil, nil
	for i := 0; i < 10; i++ {
		bs = append(bs, fmt.Sprintf("fn c%d(k: int) { un(apply(fn(x: int) int = x + 1, %d)) un(apply(fn(x: int) int = x + k, %d)) f := fn() int = 4 un(f()) g := fn() int = 4 un(g()) }", i, i, i+40))
	}
	build("function literals", nil, bs)
	// names
	ds = []string{"fn a() int = 11", "fn aa() int = 12", "fn a_a() int = 13", "fn a1() int = 14", "fn int1() int = 15", "fn a(x: int) int = 16", "fn aint() int = 17", "fn a_int() int = 18", "fn A() int = 19", "fn main2() int = 20", "fn clara_a() int = 21", "fn malloc() int = 22", "fn a«X»(x: []X) int = 23", "fn exit(x: string) int = 24", "fn printf2() int = 25", "fn rax() int = 26", "fn mov() int = 27", "fn _0x() int = 28"}
	bs = []string{"fn t1() int = a() + aa() * 3", "fn t2() int = a_a() + a1() * 3", "fn t3() int = int1() + a(1) * 3", "fn t4() int = aint() + a_int() * 3", "fn t5() int = A() + main2() * 3", "fn t6() int = clara_a() + malloc() * 3", "fn t7() int = a([1]) + exit(es()) * 4", "fn t8() int = printf2() + rax() * mov() - _0x()", "fn t9() { f := aa un(f()) g := a_a un(g()) h := A un(h()) }", "fn u1(a: fn() int) int = a() + 50", "fn u2() int { aa := 3 return aa + a() * 9 }", "fn u3(x: int) int { aa := fn() int = x + 40 return aa() }", "fn u4() int { if eb() { aa := a1 return aa() } return aa() }"}
	build("names", ds, bs)
	// generic and plain candidates: the first declaration that fits
	build("plain before generic", []string{"fn ov(x: int) int = 1", "fn ov«X»(x: X) int = 2", "fn ow«X»(x: []X) int = 3", "fn ow«X»(x: X) int = 4"}, []string{"fn t1() int = ov(1) + 30", "fn t2() int = ov(es()) + 31", "fn t3() int = ow(ea()) + 32", "fn t4() int = ow(e1()) + 33", "fn t5() int = e1().ov() + 34", "fn t6() int = es().ov() + 35"})
	return ss
}

// labelsOf: no symbol or label is defined twice in a program made of every statement and expression form.
func labelsOf(c *Ctx, rule string) {
	var fns []string
	for _, k := range stmtConstructs {
		for i, p := range stmtPositions {
			if n := len(fns); (n+i)%3 == 0 {
				fns = append(fns, fmt.Sprintf("fn t%d(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, ev: en) { %s }", n, strings.ReplaceAll(p.src, "%s", k.src)))
			}
		}
	}
	const per = 40
	c.Parallel((len(fns)+per-1)/per, func(c *Ctx, i int) {
		e := (i + 1) * per
		if e > len(fns) {
			e = len(fns)
		}
		r := compileSchema(c, shdr+strings.Join(fns[i*per:e], "\n")+"\nfn main() {}\n", nil)
		name := fmt.Sprintf("all forms, part %d", i+1)
		if r.Und != "" || r.Panic != "" || len(r.Errs) > 0 {
			c.Fail(rule, name, r.Where, "the program is not compiled: %s%s%v", r.Und, r.Panic, r.Errs)
			return
		}
		labels(c, rule, name, r.Text)
	})
}

func init() {
	Registry["C21"] = func(c *Ctx) {
		c.runSchemas(overloadSchemas("resolved function"), cgOpts{Semantics: true})
		c.runSchemas(longNames("long names"), cgOpts{Semantics: true})
		c.Min("long names", 90)
		labelsOf(c, "labels")
		manyDecls(c, "labels")
	}
}

// labels: every label is defined once, and every reference to generated code or data has its definition.
func labels(c *Ctx, rule, name, text string) {
	p := asmx.Parse(text)
	for _, e := range p.Errs {
		c.Fail(rule, name, "", "emitted text is not an instruction: %s", e)
	}
	dup := map[string]bool{}
	for _, d := range p.Dups {
		dup[d] = true
	}
	for l := range p.Labels {
		c.Check(!dup[l], rule, name+"/"+l, "", "label %s is defined twice", l)
	}
	use := func(l *asmx.Line, s string, local bool) {
		if i := strings.IndexAny(s, "+-"); i > 0 {
			s = s[:i]
		}
		if s == "" || s[0] == '-' || s[0] == '$' || s[0] >= '0' && s[0] <= '9' || s[0] == '\x01' {
			return
		}
		if !local && !strings.HasPrefix(s, ".") && !strings.HasPrefix(s, "clara_") {
			return // a C or runtime symbol, for the linker
		}
		_, ok := p.Labels[s]
		c.Check(ok, rule, name+"/"+s, "", "%s refers to the undefined %s", strings.Join(strings.Fields(l.Text), " "), s)
	}
	for i := range p.Lines {
		l := &p.Lines[i]
		for _, o := range l.Ops {
			switch o.Kind {
			case "sym":
				use(l, o.Sym, l.Op[0] == 'j')
			case "imm":
				use(l, o.Imm, false)
			case "mem":
				use(l, o.Disp, false)
			}
		}
		if l.Dir == ".8byte" || l.Dir == ".quad" || l.Dir == ".4byte" || l.Dir == ".long" {
			for _, a := range l.Args {
				use(l, a, false)
			}
		}
	}
}
