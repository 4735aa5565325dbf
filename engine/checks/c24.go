package checks

import (
	"fmt"
	"regexp"
	"strings"
)

func seq(n int, f string, sep string) string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, strings.ReplaceAll(f, "#", fmt.Sprint(i)))
	}
	return strings.Join(r, sep)
}

// noCrash: the compiler accepts or diagnoses the program.
func noCrash(c *Ctx, rule, name, src string) {
	r := compileSchema(c, src, nil)
	switch {
	case r.Und != "":
		c.Fail(rule, name, r.Where, "undecided: %s", r.Und)
	case r.Panic != "":
		c.Fail(rule, name, r.Where, "the compiler panics: %s", r.Panic)
	case len(r.Errs) > 0 && (r.Linked || r.Out != ""):
		c.Fail(rule, name, "", "an executable is produced although the program is diagnosed")
	case len(r.Errs) == 0 && !r.Linked:
		c.Fail(rule, name, "", "no executable is produced and nothing is diagnosed")
	default:
		c.Ok(rule)
		c.Sample(rule, name)
	}
}

// noCrashes decides items many at a time: those diagnosed are left out of the next program, until the rest compiles.
// Each item is one line; @x is a name of its own (@ is replaced by a prefix).
func noCrashes(c *Ctx, rule, hdr string, items []nsrc) {
	const per = 40
	hl := strings.Count(hdr, "\n")
	for _, it := range items {
		if strings.Contains(it.src, "\n") {
			panic("item on several lines")
		}
	}
	c.Parallel((len(items)+per-1)/per, func(c *Ctx, i int) {
		b := items[i*per:]
		if len(b) > per {
			b = b[:per]
		}
		alone := func(it nsrc) { noCrash(c, rule, it.name, hdr+own1(it.src, 0)+"\nfn main() {}\n") }
		for len(b) > 0 {
			var sb strings.Builder
			sb.WriteString(hdr)
			for j, it := range b {
				sb.WriteString(own1(it.src, j) + "\n")
			}
			sb.WriteString("fn main() {}\n")
			r := compileSchema(c, sb.String(), nil)
			d := diagnosed(r.Errs)
			var rest []nsrc
			for j, it := range b {
				if !d[hl+j+1] {
					rest = append(rest, it)
				}
			}
			switch {
			case r.Und != "" || r.Panic != "" || len(r.Errs) > 0 && (len(rest) == len(b) || r.Linked || r.Out != "") || len(r.Errs) == 0 && !r.Linked:
				for _, it := range b {
					alone(it)
				}
				rest = nil
			case len(r.Errs) == 0:
				for _, it := range b {
					c.Ok(rule)
					c.Sample(rule, it.name)
				}
				rest = nil
			default:
				for n := len(rest); n < len(b); n++ {
					c.Ok(rule)
				}
			}
			b = rest
		}
	})
}

// own1 gives the items' own names.
func own1(src string, n int) string {
	for _, up := range []string{"S"} {
		src = strings.ReplaceAll(src, "@"+up, fmt.Sprintf("Q%d%s", n, up))
	}
	return strings.ReplaceAll(src, "@", fmt.Sprintf("q%d", n))
}

// limitItems are programs around the number of parameters, fields, arguments, variables and captures the compiler supports.
func limitItems() []item {
	var it []item
	add := func(name, src string, ok bool) { it = append(it, item{name, src, ok}) }
	for n := 0; n <= 10; n++ {
		p, a := seq(n, "p#: int", ", "), seq(n, "#", ", ")
		sum := "0" + seq(n, " + p#", "")
		in := n <= 6
		nm := fmt.Sprintf("%d ", n)
		add(nm+"parameters", fmt.Sprintf("fn t(%s) int = %s\n", p, sum), in)
		add(nm+"parameters in block", fmt.Sprintf("fn t(%s) int { return %s }\n", p, sum), in)
		add(nm+"parameters of extern", fmt.Sprintf("fn t(%s) int\n", p), in)
		add(nm+"arguments", fmt.Sprintf("fn t(%s) int = %s\nfn u() { use(t(%s)) }\n", p, sum, a), in)
		add(nm+"string parameters", fmt.Sprintf("fn t(%s) string = \"s\"\n", seq(n, "p#: string", ", ")), in)
		add(nm+"arguments and receiver", fmt.Sprintf("fn t(r: int%s) int = r\nfn u() { use(7.t(%s)) }\n", seq(n, ", p#: int", ""), a), n+1 <= 6)
		add(nm+"fields", fmt.Sprintf("struct s { %s }\nfn u(x: s) { use(1) }\n", seq(n, "f#: int", " ")), in)
		add(nm+"constructor arguments", fmt.Sprintf("struct s { %s }\nfn u() s = S(%s)\n", seq(n, "f#: int", " "), a), in)
		add(nm+"enum parameters", fmt.Sprintf("enum e { E1(%s) E2() }\n", p), n <= 5)
		add(nm+"case variables", fmt.Sprintf("enum e { E1(%s) E2() }\nfn u(x: e) { match x { case E1(%s): use(0%s) case E2(): use(1) } }\n", p, seq(n, "v#", ", "), seq(n, " + v#", "")), n <= 5)
		if n > 0 {
			add(nm+"constructors", fmt.Sprintf("enum e { %s }\nfn u(x: e) { match x { %s } }\n", seq(n, "E#(a: int)", " "), seq(n, "case E#(v): use(v)", " ")), true)
			add(nm+"type parameters", fmt.Sprintf("fn t«%s»(a: T0) T0 = a\nfn u() { use(t«%s»(1)) }\n", seq(n, "T#", ", "), seq(n, "int", ", ")), true)
			add(nm+"struct type parameters", fmt.Sprintf("struct s«%s» { f: T0 }\nfn u(x: s«%s») int = x.f\n", seq(n, "T#", ", "), seq(n, "int", ", ")), true)
			add(nm+"enum type parameters", fmt.Sprintf("enum s«%s» { E1(f: T0) }\nfn u(x: s«%s») { match x { case E1(f): use(f) } }\n", seq(n, "T#", ", "), seq(n, "int", ", ")), true)
			add(nm+"array elements", fmt.Sprintf("fn u() { v := [%s] use(v[0]) }\n", a), true)
			add(nm+"conditions", fmt.Sprintf("fn u() { if eb() { use(1) } %s else { use(2) } }\n", seq(n, "elseif eb() { use(#) }", " ")), true)
			add(nm+"captured variables", fmt.Sprintf("fn u() { %s f := fn() int = 0%s use(f()) }\n", seq(n, "v# := e1()", " "), seq(n, " + v#", "")), in)
			add(nm+"captured variables in argument", fmt.Sprintf("fn u() { %s use(apply(fn(x: int) int = x%s, 1)) }\n", seq(n, "v# := e1()", " "), seq(n, " + v#", "")), in)
		}
		// a function value's code receives one more word than its arguments
		add(nm+"literal parameters", fmt.Sprintf("fn u() { f := fn(%s) int = %s }\n", p, sum), in)
		add(nm+"closure parameters", fmt.Sprintf("fn u(k: int) { f := fn(%s) int = k + %s }\n", p, sum), n <= 5)
		add(nm+"function value arguments", fmt.Sprintf("fn u(f: fn(%s) int) { use(f(%s)) }\n", seq(n, "int", ", "), a), n <= 5)
		add(nm+"function variable arguments", fmt.Sprintf("fn u() { f := fn(%s) int = %s use(f(%s)) }\n", p, sum, a), n <= 5)
		add(nm+"closure variable arguments", fmt.Sprintf("fn u(k: int) { f := fn(%s) int = k + %s use(f(%s)) }\n", p, sum, a), n <= 5)
		add(nm+"field function arguments", fmt.Sprintf("struct s { f: fn(%s) int }\nfn u(x: s) { use(x.f(%s)) }\n", seq(n, "int", ", "), a), n <= 5)
		add(nm+"result function arguments", fmt.Sprintf("fn u(g: fn() fn(%s) int) { use(g()(%s)) }\n", seq(n, "int", ", "), a), n <= 5)
		add(nm+"element function arguments", fmt.Sprintf("fn u(g: []fn(%s) int) { use(g[0](%s)) }\n", seq(n, "int", ", "), a), n <= 5)
		add(nm+"printf arguments", fmt.Sprintf("fn u() { printf(\"%%d\"%s) }\n", seq(n, ", #", "")), n+1 <= 6)
	}
	for _, n := range []int{20, 60, 150, 300} {
		nm := fmt.Sprintf("%d ", n)
		add(nm+"variables", fmt.Sprintf("fn u() { %s use(0%s) }\n", seq(n, "v# := e1()", " "), seq(n, " + v#", "")), true)
		add(nm+"string variables", fmt.Sprintf("fn u() { %s %s }\n", seq(n, "v# := es()", " "), seq(n, "uses(v#)", " ")), true)
		add(nm+"array elements", fmt.Sprintf("fn u() { v := [%s] use(v[0]) }\n", seq(n, "#", ", ")), true)
		add(nm+"functions", seq(n, "fn u#() int = #\n", ""), true)
		add(nm+"literals", fmt.Sprintf("fn u() { %s }\n", seq(n, "use(apply0(fn() int = #))", " ")), true)
		add(nm+"constructors", fmt.Sprintf("enum e { %s }\nfn u(x: e) { match x { %s } }\n", seq(n, "E#(a: int)", " "), seq(n, "case E#(v): use(v)", " ")), true)
		add(nm+"strings", fmt.Sprintf("fn u() { %s }\n", seq(n, `uses("s#")`, " ")), true)
		add(nm+"nested parentheses", "fn u() { use("+strings.Repeat("(", n)+"1"+strings.Repeat(")", n)+") }\n", true)
		add(nm+"nested calls", "fn u() { use("+strings.Repeat("id(", n)+"1"+strings.Repeat(")", n)+") }\n", true)
		add(nm+"operands", "fn u() { use(1"+strings.Repeat(" + e1()", n)+") }\n", true)
		add(nm+"right nested operands", "fn u() { use("+strings.Repeat("e1() - (", n)+"1"+strings.Repeat(")", n)+") }\n", true)
	}
	for _, n := range []int{1000, 4200} {
		nm := fmt.Sprintf("%d ", n)
		add(nm+"variables", fmt.Sprintf("fn u() { %s %s }\n", seq(n, "v# := e1()", " "), seq(n, "use(v#)", " ")), true)
		if n > 1000 {
			continue
		}
		add(nm+"string variables", fmt.Sprintf("fn u() { %s %s }\n", seq(n, "v# := es()", " "), seq(n, "uses(v#)", " ")), true)
		add(nm+"functions", seq(n, "fn u#() int = #\n", ""), true)
		add(nm+"strings", fmt.Sprintf("fn u() { %s }\n", seq(n, `uses("s#")`, " ")), true)
		add(nm+"array elements", fmt.Sprintf("fn u() { v := [%s] use(v[0]) }\n", seq(n, "#", ", ")), true)
	}
	for _, n := range []int{5, 20, 40} {
		nm := fmt.Sprintf("%d ", n)
		add(nm+"nested blocks", "fn u() { "+strings.Repeat("if eb() { ", n)+"use(1)"+strings.Repeat(" }", n)+" }\n", true)
		add(nm+"nested loops", "fn u() { "+seq(n, "for i# in 0 .. 2 { ", "")+"use(i0)"+strings.Repeat(" }", n)+" }\n", true)
		add(nm+"nested ternaries", "fn u() { use("+strings.Repeat("eb() ? 1 : (", n)+"2"+strings.Repeat(")", n)+") }\n", true)
		add(nm+"nested array types", "fn u(x: "+strings.Repeat("[]", n)+"int) { use(1) }\n", true)
		add(nm+"nested type arguments", "fn u(x: "+strings.Repeat("opt«", n)+"int"+strings.Repeat("»", n)+") { use(1) }\n", true)
		add(nm+"nested literals", "fn u() { use("+strings.Repeat("apply0(fn() int = ", n)+"1"+strings.Repeat(")", n)+") }\n", true)
		add(nm+"nested closures", "fn u(k: int) { use("+strings.Repeat("apply0(fn() int = k + ", n)+"1"+strings.Repeat(")", n)+") }\n", true)
		add(nm+"chained calls", "fn u() { use(1"+strings.Repeat(".id()", n)+") }\n", true)
		add(nm+"chained fields", "fn u(p: pt) { usep(p"+strings.Repeat(".q.t", n)+") }\n", true)
	}
	return it
}

var anyExprs = []string{"x", "7", "-7", "0x1F", `"s"`, `""`, "true", "not b", "-x", "~x", "x + 1", "x < 1", "b and b", "b ? x : 2", "(x)", "use(x)", "id(x)", "x.id()", "pp", "pp.x", "pp.q.arr[1]", "pp.f", "pp.f(1)", "pp.q.t.f(1)", "ar", "ar[0]", "ar.length", "[1, 2]", `["s"]`, "[ar]", "[[1], [2]]", "[]", "g", "g(1)", "ef()(1)", "[g][0](1)", "fn() int = 1", "fn(z: int) int = z + x", "fn() nothing { use(x) }", "fn(z: int) int { return z }", "twice", "gid", "gid(x)", "gid«int»(x)", "gid(gid)", "Pt", "Pt(1, es(), twice, eq())", "Pt(1, es(), twice, eq()).f(2)", "Aa", "Aa()", "Bb(1)", "Som(1)", "Non«int»()", "Non()", "Som(Som(x))", "pt", "int", "opt", "T", "nowhere", "main", "main()", "printf", `printf("s")`, "unsafe(x, 0, type(int))", "unsafe(x, 0, type([]int))", "unsafe(x, 0, 1)", "type(int)", "type([]int)", "type(fn(int) int)", "e1", "debug", "asEnum(ee())", "es().length", "ea().length", "x.y.z", "x.length", "pp.length", "ar.x", "1.2", "x()", "x[0]", "pp[0]", "pp()", "g[0]", "g.x", `"s".length`, "[1].length", "[1][0]", "ar[ar[0]]", "ar[pp]", "pp.x.x", "pp.nofield", "pp.nofield(1)", "ee()", "eo()", "1 .. 2", "x := 1", "fn(x: int, x: int) int = 1", "fn(z: nowhere) int = 1", "fn() int { }", "ov", "ov(1)", `ov("s")`, "ov(ar)", "(fn(z: int) int = z)(1)", "(b ? g : g)(1)", "(g)(1)"}

var anyPositions = []string{"%s", "v := %s", "v := 1 v = %s", "%s = 1", "%s := 1", "use(%s)", "useb(%s)", "uses(%s)", "gid(%s)", "use(gid(%s))", "%s(1)", "%s()", "(%s)(1)", "%s.x", "%s.length", "%s.id()", "%s.use()", "%s[0]", "%s[0] = 1", "ar[%s]", "ar[%s] = 1", "ar[0] = %s", "pp.x = %s", "pp.f = %s", "x.%s", "pp.%s", "-%s", "not %s", "%s + 1", "1 + %s", "%s and b", "x == %s", "b ? %s : 1", "b ? 1 : %s", "v := %s ? 1 : 2", "v := [%s]", "v := [1, %s]", "if %s { }", "if b { } elseif %s { }", "while %s { }", "for i in %s { use(i) }", "for i in 0 .. %s { }", "for i in %s .. 0 { use(i) }", "match %s { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) }", "match %s { case Som(n): use(1) case Non(): use(2) }", "match ee() { case Aa(): %s case Bb(n): use(n) case Cc(s, m): use(m) }", "return %s", "if b { %s }", "f := fn() int = %s", "f := fn() nothing = %s", "f := fn() nothing { %s }", "use(apply0(fn() int = %s))", "apply(%s, 1)", "apply(twice, %s)", "printf(%s)", `printf("%%d", %s)`, "unsafe(%s, 0, type(int))", "unsafe(x, %s, type(int))", "unsafe(x, 0, %s)", "Som(%s)", "Pt(%s, es(), twice, eq())", "Pt(1, es(), %s, eq())", "gid«%s»(1)", "%s.f(1)", "ar.%s", "%s.deref", "asEnum(%s)"}

func init() {
	Registry["C24"] = func(c *Ctx) {
		it := limitItems()
		c.Parallel(len(it), func(c *Ctx, i int) {
			src := shdr + it[i].src + "fn main() {}\n"
			if it[i].ok {
				mustAccept(c, "within a limit", it[i].name, src)
			} else {
				mustReject(c, "beyond a limit", it[i].name, src)
			}
		})
		names := []string{"asEnum", "setElement", "arrayNoInit", "claralloc", "invokeDynamic", "entrypoint", "indexOutOfBounds", "enum_", "block", "unsafe", "printf", "debug", "main", "length", "deref", "string", "int", "bool", "pointer", "bytes", "nothing", "T", "opt", "en", "pt", "tag", "_0", "e1", "use", "Aa", "Bb", "Som", "Pt", "closure", "clEnv", "env", "getBlocks", "ov", "asm_entrypoint"}
		forms := []string{
			"fn N(x: int) int = x\nfn t() { use(N(1)) }", "fn N() int = 2\nfn t() { use(N()) }", "fn N(a: string, b: []int) []int = b\nfn t() { use(N(es(), ea())[0]) }", "fn t(N: int) { use(N) }", "fn t(N: fn(int) int) { use(N(1)) }", "fn t() { N := 1 use(N) }", "fn t() { N := 1 use(N + [1, 2][0]) match eo() { case Som(s): uses(s) case Non(): use(N) } for i in ea() { use(i) } }",
			"fn t() { N := twice use(N(2)) }", "fn t() { N := 1 N(2) }", "fn t() { N := 1 N(2, 3, type(int)) }", "fn t() { N := fn(x: int) int = x + 1 use(N(2)) }", "fn t(k: int) { N := fn(x: int) int = x + k use(N(2)) }", "fn t«N»(x: N) N = x", "fn t«N»(x: N) { match eo() { case Som(s): uses(s) case Non(): use(1) } match ee() { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) } }", "fn t«N»(x: []N, y: opt«N») { match y { case Som(s): use(1) case Non(): use([1][0]) } }",
			"struct N { x: int }", "struct zz { N: int }\nfn t(z: zz) int = z.N", "struct zz { N: fn(int) int }\nfn t(z: zz) int = z.N(1)", "struct zz { N: fn(int) int }\nfn t(z: fn() zz) int = z().N(1)", "enum N { Zz() }", "enum zz { N() Z2(a: int) }\nfn t(z: zz) { match z { case N(): use(1) case Z2(q): use(q) } }", "enum zz { Z1(N: int) }\nfn t(z: zz) { match z { case Z1(q): use(q) } }", "enum zz«N» { Z1(a: N) }\nfn t(z: zz«int») { match z { case Z1(q): use(q) } }", "struct zz«N» { a: N }\nfn t(z: zz«int») int = z.a",
			"fn t() { for N in 0 .. 2 { use(N) } }", "fn t() { for N in ea() { use(N) } }", "fn t() { match ee() { case Aa(): use(1) case Bb(N): use(N) case Cc(s, m): use(m) } }", "fn t() { N(1) }", "fn t() { v := N use(1) }", "fn t(x: N) { use(1) }", "fn t(p: pt) { v := p.N }", "fn t(p: pt) { p.N(1) }", "fn t(p: []int) { v := p.N }", "fn t(p: string) { v := p.N() }", "fn t() { x := fn(N: int) int = N use(x(1)) }", "fn t(N: int) { x := fn() int = N use(x()) }"}
		c.Parallel(len(names)*len(forms), func(c *Ctx, i int) {
			src := strings.NewReplacer("N(", names[i%len(names)]+"(", "«N»", "«"+names[i%len(names)]+"»", "N ", names[i%len(names)]+" ", "N:", names[i%len(names)]+":", "N)", names[i%len(names)]+")", ": N", ": "+names[i%len(names)], "]N", "]"+names[i%len(names)], "=N", "="+names[i%len(names)], ".N", "."+names[i%len(names)]).Replace(forms[i/len(names)])
			noCrash(c, "any name anywhere", src, shdr+"fn ov(x: int) int = x\nfn ov(x: string) string = x\n"+src+"\nfn main() {}\n")
		})
		h := shdr + "fn ov(x: int) int = x\nfn ov(x: string) string = x\n"
		type pair struct{ e, p string }
		var ps []pair
		for _, e := range anyExprs {
			for _, p := range anyPositions {
				ps = append(ps, pair{e, strings.ReplaceAll(p, "%%", "%")})
			}
		}
		var bodies []nsrc
		for _, p := range ps {
			body := strings.Replace(p.p, "%s", p.e, 1)
			bodies = append(bodies, nsrc{body, "fn @t«T»(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, tt: T) { " + body + " }"})
		}
		noCrashes(c, "any expression anywhere", h, bodies)
		// a type, right or wrong, wherever a type can be written, with uses of the value
		tys := []string{"int", "string", "bool", "bytes", "pointer", "nothing", "T", "nowhere", "pt", "en", "opt", "opt«int»", "opt«int, int»", "opt«nowhere»", "opt«T»", "opt«opt«string»»", "opt«nothing»", "int«int»", "pt«int»", "T«int»", "bx", "bx«int»", "bx«bx«int»»", "bx«int, int»", "bx«nowhere»", "bx«T»", "bx«fn(T) T»", "nowhere«int»", "[]int", "[][]T", "[]nowhere", "[]int«int»", "[]nothing", "[]opt", "[]bx«int, T»", "fn()", "fn() nothing", "fn(int) int", "fn(T) T", "fn(nowhere) int", "fn(int) nowhere", "fn(int«int») int", "fn(bx) opt", "fn(int, int, int, int, int, int) int", "fn(int, int, int, int, int, int, int) int", "fn(fn(T) int) []T", "e1", "ov", "Aa", "Som", "t", "main", "x", "self", "self«int»"}
		uses := []string{"", "use(v)", "use(v.x)", "use(v[0])", "use(v(1))", "v = v", "for k in v { use(k) }", "match v { case Som(s): uses(s) case Non(): use(1) }", "w := v w = tt", "g2 := fn() int = e1() + id(v) use(g2())", "use(v + 1)", "use(v == v ? 1 : 2)", "v.use()", "v.x = 1", "while v { use(1) }", "ov(v)", "gg(v, v)", "vs := [v, v] use(vs.length)"}
		tposs := []string{"fn t«T»(v: N, tt: T) { U }", "fn r«T»(tt: T) N { return tt }\nfn t(tt: int) { v := r(tt) U }", "fn r«T»() N { U }\nfn t(tt: int) { v := r«int»() U }", "fn r«T»(v: N) N = v\nfn t«T»(tt: T) { v := r(tt) U }", "fn r«T»(v: N) N\nfn t«T»(tt: T) { v := r(tt) U }", "struct self«T» { x: N }\nfn t«T»(tt: T) { v := Self(tt) U }", "struct self«T» { x: N y: T }\nfn t«T»(p: self«T», tt: T) { v := p.x U }", "struct self { x: N }\nfn t(p: self, tt: int) { v := p.x U }", "enum self«T» { Sa(a: N) Sb(b: T) }\nfn t«T»(p: self«T», tt: T) { match p { case Sa(v): U case Sb(v): U } }", "enum self { Sa(a: N) Sb() }\nfn t(p: self, tt: int) { match p { case Sa(v): U case Sb(): use(1) } }",
			"fn t«T»(tt: T) { f := fn(v: N) { U } f(tt) }", "fn t«T»(tt: T) { f := fn(a: int) N { return tt } v := f(1) U }", "fn t«T»(tt: T) { f := fn(a: int) N = tt v := f(1) U }", "fn t«T»(tt: T) { f := fn(a: int) N = a v := f(1) U }", "fn t«T»(tt: T) { v := mk«N»() U }", "fn t«T»(tt: T) { v := mk«[]N»() U }", "fn t«T»(tt: T) { v := unsafe(tt, 0, type(N)) U }", "fn t«T»(tt: T) { v := Bx«N»(tt) U }", "fn t«T»(tt: T) { v := Som«N»(tt) U }", "fn t«T»(tt: T) { v := ov«N»(tt) U }", "fn t«T»(tt: T, w: fn(N) N) { v := w(tt) U }", "fn t«T»(tt: T, w: fn() N) { v := w() U }", "fn t«T»(tt: T) { while eb() { run2(fn(v: N) { U }) } }", "fn t«T»(tt: T) { use(1).ov«N»() v := es().ov«N»() U }"}
		var ts []nsrc
		own := regexp.MustCompile(`\b(r|t|self|Self|Sa|Sb)\b`)
		for i := 0; i < len(tys)*len(tposs); i++ {
			n := tys[i%len(tys)]
			for k, u := range uses {
				if !c.Thorough && k > 0 && (i+k)%6 != 0 {
					continue
				}
				src := strings.NewReplacer("N(", n+"(", "«N»", "«"+n+"»", "N ", n+" ", "N)", n+")", "N,", n+",", ": N", ": "+n, "]N", "]"+n, "N\n", n+" ", " U ", " "+u+" ", "\n", " ").Replace(tposs[i/len(tys)])
				ts = append(ts, nsrc{src, own.ReplaceAllString(src, "@$1")})
			}
		}
		noCrashes(c, "any type anywhere", h+"struct bx«T» { v: T }\nfn mk«T»() T\nfn gg«A»(x: A, y: A) A = x\nfn run2(f: fn(int) nothing) { f(1) }\n", ts)
		c.Min("any type anywhere", 2000)
	}
}
