package checks

import (
	"fmt"
	"strings"
)

// Constructs in large numbers, long chains and deep nestings. The compiler has no size at which it may begin to treat
// a construct differently, except the limits it diagnoses.

func sizesOf(thorough bool, extra ...int) []int {
	r := []int{7, 10, 18, 35, 70}
	if thorough {
		r = append(r, 140, 300)
	}
	return append(r, extra...)
}

func rep(n int, f func(i int) string, sep string) string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, f(i))
	}
	return strings.Join(r, sep)
}

// longBodies: blocks of many statements of every form.
func longBodies(thorough bool) []nsrc {
	var fs []nsrc
	straight := []func(i int) string{
		func(i int) string { return fmt.Sprintf("use(x + %d)", i+100) },
		func(i int) string { return "e1()" },
		func(i int) string { return fmt.Sprintf("v%d := e1()", i) },
		func(i int) string { return fmt.Sprintf("pp.x = x + %d", i) },
		func(i int) string { return fmt.Sprintf("x = x + %d", i) },
		func(i int) string { return fmt.Sprintf("use(apply(fn(z: int) int = z + %d, %d))", i, i) },
		func(i int) string { return fmt.Sprintf("k%d := fn(z: int) int = z + x use(k%d(1))", i, i) },
		func(i int) string { return fmt.Sprintf(`uses("t%d")`, i) },
		func(i int) string { return fmt.Sprintf("g%d := [x, %d] use(g%d[1])", i, i, i) },
	}
	const head = "fn @(x: int, b: bool, ar: []int, pp: pt, ev: en) "
	for _, n := range sizesOf(thorough) {
		for k, f := range straight {
			if n > 40 && k > 4 {
				continue
			}
			fs = append(fs, nsrc{fmt.Sprintf("%d statements of form %d", n, k), head + "{ " + rep(n, f, " ") + " use(x) }"})
		}
		mixed := rep(n, func(i int) string { return straight[(i*4+i/3)%5](i) }, " ")
		fs = append(fs, nsrc{fmt.Sprintf("%d mixed statements", n), head + "{ " + mixed + " use(x) }"},
			nsrc{fmt.Sprintf("%d mixed statements in if", n), head + "{ if b { " + mixed + " } use(x) }"},
			nsrc{fmt.Sprintf("%d mixed statements in case", n), head + "{ match ev { case Aa(): use(1) case Bb(nn): " + mixed + " use(nn) case Cc(ss, mm): use(mm) } use(x) }"},
			nsrc{fmt.Sprintf("%d mixed statements in loop", n), head + "{ for ii in ar { " + mixed + " use(ii) } use(x) }"},
			nsrc{fmt.Sprintf("%d mixed statements in range", n), head + "{ for ii in 0 .. 2 { " + mixed + " use(ii) } use(x) }"},
			nsrc{fmt.Sprintf("%d mixed statements in while", n), head + "{ while eb() { " + mixed + " } use(x) }"},
			nsrc{fmt.Sprintf("%d mixed statements in literal", n), head + "{ w := fn() nothing { " + strings.ReplaceAll(mixed, " x = x", " x2 = x2") + " } w() }"})
		l := &fs[len(fs)-1]
		l.src = strings.Replace(l.src, "w := fn() nothing {", "w := fn() nothing { x2 := e2()", 1)
	}
	// a statement with paths of its own in the middle of many others
	for _, n := range sizesOf(thorough) {
		for _, k := range stmtConstructs {
			pre := rep(n, func(i int) string { return fmt.Sprintf("use(%d) a%d := e1()", i, i) }, " ")
			fs = append(fs, nsrc{fmt.Sprintf("%s after %d statements", k.name, n), "fn @(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, ev: en) { " + pre + " " + k.src + " " + rep(n, func(i int) string { return fmt.Sprintf("use(a%d)", i) }, " ") + " }"})
		}
	}
	return fs
}

// deepNests: expressions and blocks nested in themselves.
func deepNests(thorough bool) []nsrc {
	var fs []nsrc
	wrap := func(n int, pre, in, post string) string {
		return strings.Repeat(pre, n) + in + strings.Repeat(post, n)
	}
	const head = "fn @(x: int, b: bool, ar: []int, pp: pt, gg: [][]int) "
	for _, n := range sizesOf(thorough) {
		for _, o := range []string{"+", "-", "*", "&", "|", "^"} {
			fs = append(fs, nsrc{fmt.Sprintf("chain of %d %s", n, o), head + "int = x" + strings.Repeat(" "+o+" x", n)})
		}
		fs = append(fs,
			nsrc{fmt.Sprintf("chain of %d operators", n), head + "int = x" + rep(n, func(i int) string { return []string{" + ", " - ", " * ", " & ", " | ", " ^ "}[i%6] + "e1()" }, "")},
			nsrc{fmt.Sprintf("%d parentheses", n), head + "int = " + wrap(n, "(", "x", ")")},
			nsrc{fmt.Sprintf("%d right operands", n), head + "int = " + wrap(n, "(e1() - ", "x", ")")},
			nsrc{fmt.Sprintf("%d left operands", n), head + "int = " + wrap(n, "(", "x", " - e1())")},
			nsrc{fmt.Sprintf("%d negations", n), head + "int = " + wrap(n, "-(", "x", ")")},
			nsrc{fmt.Sprintf("%d complements", n), head + "int = " + strings.Repeat("~", n) + "x"},
			nsrc{fmt.Sprintf("%d nested calls", n), head + "int = " + wrap(n, "id(", "x", ")")},
			nsrc{fmt.Sprintf("%d nested second arguments", n), head + "int = " + wrap(n, "add(e1(), ", "x", ")")},
			nsrc{fmt.Sprintf("%d methods", n), head + "int = x" + strings.Repeat(".id()", n)},
			nsrc{fmt.Sprintf("%d fields", n), head + "int = pp" + strings.Repeat(".q.t", n/2) + ".x"},
			nsrc{fmt.Sprintf("%d fields assigned", n), head + "{ pp" + strings.Repeat(".q.t", n/2) + ".x = x }"},
			nsrc{fmt.Sprintf("%d function literals", n), head + "int = " + wrap(n, "apply0(fn() int = ", "5", ")")},
		)
		if n <= 18 {
			fs = append(fs,
				nsrc{fmt.Sprintf("%d indexes by elements", n), head + "int = " + wrap(n, "ar[", "x", "]")},
				nsrc{fmt.Sprintf("%d ternaries", n), head + "int = " + wrap(n, "eb() ? e1() : (", "x", ")")},
				nsrc{fmt.Sprintf("%d closures", n), head + "int = " + wrap(n, "apply0(fn() int = x + ", "x", ")")},
				nsrc{fmt.Sprintf("%d elseif", n), head + "{ if eb() { use(0) }" + rep(n, func(i int) string { return fmt.Sprintf(" elseif eb() { use(%d) }", i+1) }, "") + " use(x) }"},
				nsrc{fmt.Sprintf("%d elseif and else", n), head + "{ if eb() { use(0) }" + rep(n, func(i int) string { return fmt.Sprintf(" elseif eb() { use(%d) }", i+1) }, "") + " else { use(99) } use(x) }"},
			)
		}
	}
	fs = append(fs, nsrc{"6 and", head + "{ useb(eb()" + strings.Repeat(" and eb()", 6) + ") }"}, nsrc{"5 or", head + "{ useb(eb()" + strings.Repeat(" or eb()", 5) + ") }"})
	// blocks, each declaring a variable and using all around it
	for _, n := range sizesOf(thorough) {
		if n > 40 {
			break
		}
		src := "use(x) " + rep(n, func(i int) string { return fmt.Sprintf("use(v%d)", i) }, " ")
		for i := n - 1; i >= 0; i-- {
			op := "if eb() {"
			switch i % 3 {
			case 1:
				op = "if eb() { use(e1()) } else {"
			case 2:
				op = "if eb() { use(e2()) } elseif eb() {"
			}
			src = fmt.Sprintf("v%d := e1() %s %s } use(v%d) use(x)", i, op, src, i)
		}
		fs = append(fs, nsrc{fmt.Sprintf("%d blocks", n), head + "{ " + src + " }"})
		src = "use(v0) return v0"
		for i := n - 1; i >= 0; i-- {
			src = fmt.Sprintf("v%d := v%d + %d if eb() { %s } use(v%d) return v0", i+1, i, i, src, i+1)
		}
		fs = append(fs, nsrc{fmt.Sprintf("%d blocks around the first", n), "fn @(v0: int) int { " + src + " }"})
		src = "use(1)"
		for i := n - 1; i >= 0; i-- {
			src = fmt.Sprintf("match ee() { case Aa(): use(x) case Bb(w%d): %s use(w%d) case Cc(s%d, q%d): uses(s%d) }", i, src, i, i, i, i)
		}
		fs = append(fs, nsrc{fmt.Sprintf("%d matches", n), head + "{ " + src + " use(x) }"})
	}
	return fs
}

// manyCases: enums with many constructors, constructed and matched in every order.
func manyCases(thorough bool) []nsrc {
	var fs []nsrc
	for k, n := range []int{6, 9, 17, 34, 66} {
		if n > 40 && !thorough {
			break
		}
		u := fmt.Sprintf("%d", n)
		con := func(i int) string {
			return fmt.Sprintf("N%sx%d(%s)", u, i, rep(i%4, func(j int) string { return fmt.Sprintf("a%d: %s", j, []string{"int", "string", "int"}[(i+j)%3]) }, ", "))
		}
		pat := func(i int) string {
			body := fmt.Sprintf("use(%d)", i+1000)
			for j := 0; j < i%4; j++ {
				body += fmt.Sprintf(" %s(p%d)", []string{"use", "uses", "use"}[(i+j)%3], j)
			}
			return fmt.Sprintf("case N%sx%d(%s): %s", u, i, rep(i%4, func(j int) string { return fmt.Sprintf("p%d", j) }, ", "), body)
		}
		decl := "enum mn" + u + " { " + rep(n, con, " ") + " }\n"
		orders := []struct {
			name string
			at   func(i int) int
		}{{"in order", func(i int) int { return i }}, {"reversed", func(i int) int { return n - 1 - i }}, {"mixed", func(i int) int { return (i*5 + 3) % n }}}
		if n%5 == 0 {
			panic("size")
		}
		for _, o := range orders {
			o := o
			src := "fn @(e: mn" + u + ") { match e { " + rep(n, func(i int) string { return pat(o.at(i)) }, " ") + " } use(1) }"
			if o.name == "in order" {
				src = decl + src
			}
			fs = append(fs, nsrc{fmt.Sprintf("%d cases %s", n, o.name), src})
		}
		arg := func(i int) string {
			return rep(i%4, func(j int) string { return []string{"e1()", "es()", "e2()"}[(i+j)%3] }, ", ")
		}
		fs = append(fs, nsrc{fmt.Sprintf("%d constructors", n), "fn @() { " + rep(n, func(i int) string { return fmt.Sprintf("um%s(N%sx%d(%s))", u, u, i, arg(i)) }, " ") + " }\nfn um" + u + "(e: mn" + u + ") nothing"})
		_ = k
	}
	return fs
}

// manyElements: array literals of many elements.
func manyElements(thorough bool) []nsrc {
	var fs []nsrc
	for _, n := range sizesOf(thorough, 130) {
		fs = append(fs, nsrc{fmt.Sprintf("%d integers", n), "fn @() []int = [" + rep(n, func(i int) string { return fmt.Sprint(i * 3) }, ", ") + "]"},
			nsrc{fmt.Sprintf("%d strings", n), "fn @() []string = [" + rep(n, func(i int) string { return fmt.Sprintf(`"s%d"`, i) }, ", ") + "]"},
			nsrc{fmt.Sprintf("%d calls", n), "fn @(x: int) int { v := [" + rep(n, func(i int) string { return []string{"e1()", "x", "id(x)"}[i%3] }, ", ") + fmt.Sprintf("] return v[%d] }", n-1)},
			nsrc{fmt.Sprintf("%d objects", n), "fn @(p: pt) []pt = [" + rep(n, func(i int) string { return []string{"p", "ep()", "mkp(4)"}[i%3] }, ", ") + "]"})
	}
	return fs
}

// longNames: names that differ in their last character only, as functions, overloads of types, variables and fields.
func longNames(rule string) []*Schema {
	var ss []*Schema
	for _, n := range []int{20, 40, 70, 130, 260, 600} {
		base := strings.Repeat("q", n)
		var b strings.Builder
		b.WriteString(shdr)
		for i := 0; i < 4; i++ {
			fmt.Fprintf(&b, "struct %s%d { %sf%d: int %sg: string }\n", base, i, base, i, base)
			fmt.Fprintf(&b, "enum w%s%d { W%sA%d(a: int) W%sB%d() }\n", base, i, base, i, base, i)
			fmt.Fprintf(&b, "fn %sz%d() int = %d\n", base, i, i+10)
			fmt.Fprintf(&b, "fn ov(x: %s%d) int = %d\nfn ov(x: w%s%d) int = %d\nfn ov(x: []%s%d, y: w%s%d) int = %d\nfn ov(x: opt«%s%d») int = %d\n", base, i, i+20, base, i, i+30, base, i, base, i, i+40, base, i, i+50)
		}
		up := "Q" + base[1:]
		for i := 0; i < 4; i++ {
			fmt.Fprintf(&b, "fn c%d(x: %s%d, y: w%s%d, z: []%s%d, o: opt«%s%d») int = ov(x) + ov(y) * 3 + ov(z, y) * 5 + ov(o) * 7\n", i, base, i, base, i, base, i, base, i)
			fmt.Fprintf(&b, "fn d%d() int { %sv0 := e1() %sv1 := e2() x := %s%d(%sv%d, es()) %sv0 = 9 return x.%sf%d + %sz%d() + %sv1 }\n", i, base, base, up, i, base, i%2, base, base, i, base, i, base)
			fmt.Fprintf(&b, "fn m%d(y: w%s%d) { match y { case W%sB%d(): use(ov(W%sA%d(3))) case W%sA%d(%sp): use(%sp) } }\n", i, base, i, base, i, base, i, base, i, base, base)
		}
		b.WriteString("fn main() {}\n")
		ss = append(ss, &Schema{fmt.Sprintf("names of %d characters", n), b.String(), rule, nil})
	}
	return ss
}

// manyDecls: a program of very many functions, literals and branches: every label its own.
func manyDecls(c *Ctx, rule string) {
	n := 1000
	if c.Thorough {
		n = 2500
	}
	var progs []nsrc
	progs = append(progs, nsrc{"functions", rep(n, func(i int) string {
		return fmt.Sprintf("fn f%d(x: int) int { if eb() { return x } while eb() { use(%d) } return b%d(eb() and eb()) }\nfn b%d(x: bool) int = x ? 1 : 2", i, i, i, i)
	}, "\n")},
		nsrc{"function literals", rep(n, func(i int) string {
			return fmt.Sprintf("fn f%d(x: int) int = apply(fn(y: int) int = y + %d, x) + apply(fn(y: int) int = y + x, %d)", i, i, i)
		}, "\n")},
		nsrc{"calls", rep(n/2, func(i int) string {
			return fmt.Sprintf("fn f%d(s: string, p: pt) { use(1) uses(s) use(e1() + lens(s)) usep(p) uses(\"t%d\") usep(ep()) }", i, i)
		}, "\n")},
		nsrc{"overloads", rep(n/2, func(i int) string {
			return fmt.Sprintf("struct s%d { a: int }\nenum n%d { C%d() D%d(x: s%d) }\nfn ov(x: s%d) int = %d\nfn ov(y: n%d) int = %d\nfn u%d(x: s%d) int = ov(x) + ov(D%d(x))", i, i, i, i, i, i, i, i, i+1, i, i, i)
		}, "\n")},
		nsrc{"branches of one function", "fn big(x: int) { " + rep(n*3, func(i int) string { return fmt.Sprintf("if x > %d { use(%d) }", i, i) }, " ") + " }"},
		nsrc{"string literals", "fn big() { " + rep(n*2, func(i int) string { return fmt.Sprintf("uses(\"text %d\")", i) }, " ") + " }"})
	c.Parallel(len(progs), func(c *Ctx, i int) {
		r := compileSchema(c, shdr+progs[i].src+"\nfn main() {}\n", nil)
		if r.Und != "" || r.Panic != "" || len(r.Errs) > 0 {
			c.Fail(rule, "many "+progs[i].name, r.Where, "the program is not compiled: %s%s%v", r.Und, r.Panic, r.Errs)
			return
		}
		labels(c, rule, "many "+progs[i].name, r.Text)
	})
}

// manyTypes: type descriptors and constructors of programs with very many types.
func manyTypes(n int) *Schema {
	t := []string{"int", "string", "bool", "[]int", "aux", "fn(int) int"}
	return &Schema{fmt.Sprintf("%d types", n), "struct aux { i: int }\n" + rep(n, func(i int) string {
		f := func(j int) string { return fmt.Sprintf("f%d: %s", j, t[(i+j*(i/6+1))%6]) }
		if i%2 == 0 {
			return fmt.Sprintf("struct s%d { %s }", i, rep(i%7, f, " "))
		}
		return fmt.Sprintf("enum n%d { A%d(%s) B%d(%s) }", i, i, rep(i%6, f, ", "), i, rep((i/2)%6, f, ", "))
	}, "\n") + "\nfn main() {}\n", "", nil}
}

// deepTypes: types nested to a depth are the same only when every constituent is.
func deepTypes(thorough bool) []item {
	var it []item
	forms := []struct {
		name string
		mk   func(s string) string
	}{
		{"array", func(s string) string { return "[]" + s }},
		{"box", func(s string) string { return "box«" + s + "»" }},
		{"first of pair", func(s string) string { return "pair«" + s + ", int»" }},
		{"second of pair", func(s string) string { return "pair«string, " + s + "»" }},
		{"parameter", func(s string) string { return "fn(" + s + ") int" }},
		{"last parameter", func(s string) string { return "fn(int, string, " + s + ") int" }},
		{"enum", func(s string) string { return "opt«" + s + "»" }},
	}
	max := 6
	if thorough {
		max = 12
	}
	leaves := []string{"int", "string", "bool", "pt", "qt", "T"}
	deep := func(d int, k int, leaf string, mixed bool) string {
		for i := 0; i < d; i++ {
			f := k
			if mixed {
				f = (k + i) % len(forms)
			}
			leaf = forms[f].mk(leaf)
		}
		return leaf
	}
	for k, f := range forms {
		for _, mixed := range []bool{false, true} {
			for d := 2; d <= max; d++ {
				for _, a := range leaves {
					for _, b := range leaves {
						if a != "int" && b != "int" && a != b && d > 4 {
							continue
						}
						ta, tb := deep(d, k, a, mixed), deep(d, k, b, mixed)
						n := fmt.Sprintf("%s mixed=%v depth %d of %s and %s", f.name, mixed, d, a, b)
						it = append(it, item{"assigned " + n, "fn @«T»(x: " + ta + ", y: " + tb + ") { x = y }", a == b},
							item{"returned " + n, "fn @«T»(y: " + tb + ") " + ta + " = y", a == b},
							item{"argument " + n, "fn @«T»(g: fn(" + ta + ") int, y: " + tb + ") int = g(y)", a == b},
							item{"element " + n, "fn @«T»(x: " + ta + ", y: " + tb + ") { v := [x, y] }", a == b})
					}
				}
				// one level more or less
				for dd := d - 1; dd <= d+1; dd += 2 {
					ta, tb := deep(d, k, "int", mixed), deep(dd, k, "int", mixed)
					n := fmt.Sprintf("%s mixed=%v depth %d and %d", f.name, mixed, d, dd)
					it = append(it, item{"assigned " + n, "fn @(x: " + ta + ", y: " + tb + ") { x = y }", false}, item{"argument " + n, "fn @(g: fn(" + ta + ") int, y: " + tb + ") int = g(y)", false})
				}
			}
		}
	}
	return it
}

// fnTypeItems: function types are the same only when the numbers of parameters, every parameter and the result are.
func fnTypeItems() []item {
	var it []item
	mk := func(n int, at int, ret string) string {
		var ps []string
		for i := 0; i < n; i++ {
			if i == at {
				ps = append(ps, "string")
			} else {
				ps = append(ps, "int")
			}
		}
		return "fn(" + strings.Join(ps, ", ") + ") " + ret
	}
	type ft struct{ n, at int }
	var ts []ft
	for n := 0; n <= 6; n++ {
		ts = append(ts, ft{n, -1})
		for at := 0; at < n; at++ {
			ts = append(ts, ft{n, at})
		}
	}
	for _, a := range ts {
		for _, b := range ts {
			for _, r := range []string{"int", "nothing", "[]string"} {
				for _, q := range []string{"int", "nothing", "[]string"} {
					if r != q && a != b || r == "[]string" && a != b {
						continue
					}
					ta, tb := mk(a.n, a.at, r), mk(b.n, b.at, q)
					ok := a == b && r == q
					n := tb + " for " + ta
					it = append(it, item{"assigned " + n, "fn @(x: " + ta + ", y: " + tb + ") { x = y }", ok}, item{"argument " + n, "fn @(g: fn(" + ta + ") int, y: " + tb + ") int = g(y)", ok})
				}
			}
		}
	}
	return it
}

// longReturns: chains of branches and cases, one of which, at each place, does not return.
func longReturns() []rform {
	var r []rform
	for _, n := range []int{4, 6, 8, 11, 20} {
		for bad := -1; bad <= n; bad++ {
			if n > 11 && bad >= 0 && bad%5 != 0 && bad < n-1 {
				continue
			}
			at := func(i int) string {
				if i == bad {
					return "use(1)"
				}
				return "R"
			}
			s := "if eb() { " + at(0) + " }"
			for i := 1; i < n; i++ {
				s += " elseif eb() { " + at(i) + " }"
			}
			r = append(r, rform{s + " else { " + at(n) + " }", bad < 0}, rform{s, false})
			if bad < 0 {
				r = append(r, rform{s + " R", true}, rform{s + " use(1)", false})
			}
		}
		// nested to a depth, the innermost returning or not
		for _, ok := range []bool{true, false} {
			s := "use(1)"
			if ok {
				s = "R"
			}
			for i := 0; i < n; i++ {
				s = []string{"if eb() { " + s + " } else { R }", "if eb() { R } else { " + s + " }", "if eb() { R } elseif eb() { " + s + " } else { R }"}[i%3]
			}
			r = append(r, rform{s, ok})
		}
	}
	return r
}

// valuesOfTypes: variables, parameters and captured variables of every type, live across calls.
func valuesOfTypes(rule string) []*Schema {
	var fs []nsrc
	for _, t := range append(append([]string{}, typeUniverse...), extraTypes...) {
		if t == "pointer" {
			continue
		}
		d := "fn @«T, U»(a: " + t + ", f: fn() " + t + ") " + t + " "
		fs = append(fs, nsrc{"parameter of " + t, d + "{ e1() use(1) return a }"},
			nsrc{"variable of " + t, d + "{ v := f() e1() w := f() use(2) v = w es() return v }"},
			nsrc{"element of " + t, d + "{ v := [f(), a] e1() w := v[0] use(2) v[1] = w es() return w }"},
			nsrc{"temporary of " + t, "fn @«T, U»(a: " + t + ", g: fn(" + t + ", int, " + t + ") int) int = g(a, e1(), a)"},
			nsrc{"conditional of " + t, d + "{ v := eb() ? a : f() e1() return v }"})
	}
	hdr := "struct qu { x: int y: string }\nstruct box«T» { f: T }\nstruct pair«A, B» { a: A b: B }\nenum en2 { Dd() Ee(n: int) }\nenum res«T, E» { Ok(t: T) Er(e: E) }\n"
	return fnSchemas(rule, hdr, fs, 10)
}

var extraTypes = []string{"[]bool", "[][]bool", "[]en", "[]string", "[][][]int", "[]box«int»", "box«bool»", "box«en»", "box«fn(int) int»", "opt«bool»", "opt«[]int»", "opt«pt»", "pair«pt, en»", "res«bool, bool»", "[]fn() nothing", "fn(bool) bool", "fn() bool", "fn() string", "[]bytes", "box«bytes»"}
