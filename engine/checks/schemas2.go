package checks

import (
	"fmt"
	"strings"
)

// fnSchemas groups whole functions into programs.
func fnSchemas(rule, hdr string, fns []struct{ name, src string }, per int) []*Schema {
	var r []*Schema
	for i := 0; i < len(fns); i += per {
		var b strings.Builder
		b.WriteString(shdr)
		b.WriteString(hdr)
		names := map[string]string{}
		for j := i; j < i+per && j < len(fns); j++ {
			names[fmt.Sprintf("t%d", j)] = fns[j].name
			b.WriteString(strings.ReplaceAll(fns[j].src, "@", fmt.Sprintf("t%d", j)))
			b.WriteString("\n")
		}
		if !strings.Contains(b.String(), "fn main(") {
			b.WriteString("fn main() {}\n")
		}
		name := fns[i].name
		if per > 1 {
			name += " ..."
		}
		r = append(r, &Schema{name, b.String(), rule, names})
	}
	return r
}

type nsrc = struct{ name, src string }

// ---- for loops ----

func forSchemas(rule string) []*Schema {
	var fs []nsrc
	bodies := []nsrc{
		{"use", `use(i)`},
		{"two effects", `use(i) use(e1() + i)`},
		{"condition", `if i > 3 { use(i) } else { use(-i) }`},
		{"declaration", `k := i + 1 use(k) m := e1() use(m + k)`},
		{"outer variable", `acc = acc + i use(acc)`},
		{"return", `if eb() { return } use(i)`},
		{"while", `while eb() { use(i) }`},
		{"nested range", `for j in 0 .. i { use(j) use(i) }`},
		{"nested array", `for j in ea() { use(j + i) }`},
		{"nested down", `for j in i .. 0 { use(j) }`},
		{"closure", `use(apply0(fn() int = i + acc))`},
		{"match", `match ee() { case Aa(): use(i) case Bb(n): use(n) case Cc(s, m): use(m) }`},
		{"empty", ``},
	}
	arrays := []nsrc{{"variable", "av"}, {"call", "ea()"}, {"call with argument", "mka(acc)"}, {"field", "qv.arr"}, {"nested field", "pv.q.arr"}, {"literal", "[1, e1(), 3]"},
		{"conditional", "(eb() ? av : ea())"}, {"function value", "mkf()"}}
	for _, a := range arrays {
		for _, b := range bodies {
			fs = append(fs, nsrc{"array " + a.name + "/" + b.name, fmt.Sprintf("fn @(av: []int, qv: qt, pv: pt, mkf: fn() []int) { acc := 0 for i in %s { %s } use(acc) }", a.src, b.src)})
		}
	}
	ranges := []nsrc{{"0 to constant", "0 .. 3"}, {"to variable", "0 .. lim"}, {"variable to variable", "lo .. lim"}, {"call start", "e1() .. lim"}, {"from one", "1 .. lim"},
		{"expression end", "lo .. lim - 1"}, {"negative", "-2 .. lim"}, {"to hexadecimal", "0 .. 0x2"}, {"down from constant", "3 .. 0"}, {"down from variable", "lim .. 0"},
		{"down from call", "e1() .. 0"}, {"down from expression", "lim + lo .. 0"}, {"length end", "0 .. av.length"}, {"field end", "0 .. pv.x"}, {"to one", "lim .. 1"}, {"to negative", "lim .. -1"}, {"to ten", "lim .. 10"}}
	for _, a := range ranges {
		for _, b := range bodies {
			fs = append(fs, nsrc{"range " + a.name + "/" + b.name, fmt.Sprintf("fn @(lo: int, lim: int, av: []int, pv: pt) { acc := 0 for i in %s { %s } use(acc) }", a.src, b.src)})
		}
	}
	extra := []nsrc{
		{"array replaced in body", `fn @(av: []int) { ar := av for i in ar { ar = ea() use(i) use(ar[0]) } }`},
		{"element types", `fn @(ss: []string, ps: []pt, bs: []bool) { for s in ss { uses(s) } for p in ps { use(p.x) uses(p.y) } for b in bs { useb(b) } }`},
		{"element types 2", `fn @(aas: [][]int, fns: []fn(int) int) { for a in aas { for i in a { use(i) } } for f in fns { use(f(1)) } }`},
		{"generic elements", `fn @«T»(ts: []T, f: fn(T) int) int { r := 0 for t in ts { r = r + f(t) } return r }`},
		{"same name twice", `fn @(av: []int) { for i in av { use(i) } for i in 0 .. 2 { use(i) } for i in av { use(i) } }`},
		{"inside while", `fn @(av: []int) { while eb() { for i in av { use(i) } } }`},
		{"inside branches", `fn @(av: []int) { if eb() { for i in av { use(i) } } elseif eb() { for i in 0 .. 2 { use(i) } } else { for i in 2 .. 0 { use(i) } } }`},
		{"inside case", `fn @(e: en) { match e { case Aa(): for i in 0 .. 2 { use(i) } case Bb(n): for i in n .. 0 { use(i) } case Cc(s, m): for i in 0 .. m { use(i) uses(s) } } }`},
		{"inside closure", `fn @(av: []int) int { k := e1() return apply0(fn() int { r := k for i in av { r = r + i } for i in 0 .. k { r = r + i } return r }) }`},
		{"return of element", `fn @(av: []int) int { for i in av { if i == 3 { return i } } return 0 }`},
		{"element assignment", `fn @(av: []int, d: int) { for i in 0 .. av.length { av[i] = d } }`},
		{"sibling variables", `fn @(av: []string, n: int) { for s in av { t := s uses(t) } for j in 0 .. n { u := es() uses(u) use(j) } v := es() uses(v) }`},
	}
	fs = append(fs, extra...)
	return fnSchemas(rule, "", fs, 6)
}

// ---- match ----

func matchSchemas(rule string) []*Schema {
	var fs []nsrc
	hdr := `
enum none { }
fn enone() none
enum e1c { Only(a: int) }
enum e0c { Zip() Zap() }
enum big { K0() K1(a: int) K2(a: int, b: string) K3(a: string, b: int, c: bool) K4(a: int, b: int, c: int, d: string) K5(a: int, b: string, c: int, d: string, e: int) }
enum tr { Leaf() Nd(l: tr, v: int, r: tr) }
enum mix { Mf(f: fn(int) int) Mp(p: pt) Ma(a: []int) Me(e: en) Mb(b: bool) }
enum two«A, B» { Lf(a: A) Rt(b: B) Bo(b: B, a: A) }
struct box { e: en o: opt«int» }
fn ebig() big
fn etr() tr
fn emix() mix
fn emb() box
fn e0() e0c
fn eonly() e1c
fn etwo() two«string, int»
`
	cases := []string{
		`case Aa(): use(1)`, `case Bb(n): use(n)`, `case Cc(s, m): uses(s) use(m)`}
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	scr := []nsrc{{"parameter", "ev"}, {"call", "ee()"}, {"call with argument", "mke(e1())"}, {"field", "bv.e"}, {"element", "evs[e1()]"}, {"conditional", "(eb() ? ev : ee())"},
		{"function value", "fv()"}, {"constructor", "Bb(e1())"}, {"other constructor", "Cc(es(), e1())"}, {"nested call", "gid(ev)"}}
	fs = append(fs, nsrc{"no constructors", "fn @(x: none) { use(1) match x { } use(2) match enone() { } use(3) while eb() { match enone() { } } }"}, nsrc{"no constructors in a branch", "fn @(x: none) { if eb() { match enone() { } } else { match x { } use(4) } }"})
	for _, p := range perms {
		for _, s := range scr {
			fs = append(fs, nsrc{fmt.Sprintf("order %v of %s", p, s.name), fmt.Sprintf("fn @(ev: en, bv: box, evs: []en, fv: fn() en) { match %s { %s %s %s } use(9) }", s.src, cases[p[0]], cases[p[1]], cases[p[2]])})
		}
		fs = append(fs, nsrc{fmt.Sprintf("returns, order %v", p), fmt.Sprintf("fn @(ev: en) int { match ev { %s } }", strings.Join([]string{
			[]string{"case Aa(): return 1", "case Bb(n): return n + 1", "case Cc(s, m): return lens(s) + m"}[p[0]],
			[]string{"case Aa(): return 1", "case Bb(n): return n + 1", "case Cc(s, m): return lens(s) + m"}[p[1]],
			[]string{"case Aa(): return 1", "case Bb(n): return n + 1", "case Cc(s, m): return lens(s) + m"}[p[2]]}, " "))})
	}
	fs = append(fs,
		nsrc{"six constructors", `fn @(v: big) { match v { case K0(): use(0) case K1(a): use(a) case K2(a, b): use(a) uses(b) case K3(a, b, c): uses(a) use(b) useb(c) case K4(a, b, c, d): use(a) use(b) use(c) uses(d) case K5(a, b, c, d, e): use(a) uses(b) use(c) uses(d) use(e) } }`},
		nsrc{"six constructors reversed", `fn @(v: big) { match ebig() { case K5(e, d, c, b, a): use(e) uses(d) use(c) uses(b) use(a) case K4(a, b, c, d): uses(d) use(c) use(b) use(a) case K3(a, b, c): if c { uses(a) } use(b) case K2(a, b): uses(b) use(a) case K1(z): use(z) case K0(): use(0) } use(8) }`},
		nsrc{"single constructor", `fn @(v: e1c) int { match v { case Only(a): return a } }`},
		nsrc{"no variables", `fn @(v: e0c) int { match e0() { case Zap(): use(1) case Zip(): use(2) } match v { case Zip(): return 1 case Zap(): return 2 } }`},
		nsrc{"recursive", `fn @(t: tr) int { match t { case Leaf(): return 0 case Nd(l, v, r): return @(l) + v + @(r) } }`},
		nsrc{"variable types", `fn @(v: mix) int { match v { case Mf(f): return f(3) case Mp(p): return p.x + lens(p.y) case Ma(a): return a[1] case Me(e): match e { case Aa(): return 1 case Bb(n): return n case Cc(s, m): return m } case Mb(b): return b ? 1 : 2 } }`},
		nsrc{"nested in case", `fn @(t: tr) int { match t { case Nd(l, v, r): match l { case Leaf(): use(v) case Nd(l2, v2, r2): match r { case Nd(l3, v3, r3): use(v3 + v2 + v) case Leaf(): use(v2) } } use(v) case Leaf(): use(0) } return 5 }`},
		nsrc{"same variable names", `fn @(t: tr) { match t { case Nd(l, v, r): match l { case Leaf(): use(1) case Nd(a, b, c): use(b) use(v) } case Leaf(): v := e1() use(v) } v := e2() use(v) }`},
		nsrc{"twice", `fn @(ev: en) { match ev { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) } match ev { case Cc(s, m): uses(s) case Aa(): use(2) case Bb(n): use(n + 1) } }`},
		nsrc{"reassigned value", `fn @(p: en) { ev := p match ev { case Aa(): ev = ee() case Bb(n): ev = ee() use(n) case Cc(s, m): ev = ee() uses(s) use(m) } match ev { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) } }`},
		nsrc{"reassigned variable", `fn @(ev: en) { match ev { case Aa(): use(1) case Bb(n): n = n + e1() use(n) case Cc(s, m): s = es() uses(s) m = 3 use(m) } }`},
		nsrc{"in while", `fn @() { while eb() { match ee() { case Aa(): return case Bb(n): use(n) case Cc(s, m): uses(s) } } }`},
		nsrc{"in branches", `fn @(ev: en) { if eb() { match ev { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) } } else { match ee() { case Aa(): use(2) case Bb(n): use(n) case Cc(s, m): uses(s) } } }`},
		nsrc{"in for", `fn @(es: []en) { for v in es { match v { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) } } }`},
		nsrc{"in closure", `fn @(ev: en) int { k := e1() return apply0(fn() int { match ev { case Aa(): return k case Bb(n): return n + k case Cc(s, m): return m } }) }`},
		nsrc{"captured variables", `fn @(ev: en) int { match ev { case Aa(): return 1 case Bb(n): return apply(fn(z: int) int = z + n, 3) case Cc(s, m): return apply0(fn() int = lens(s) + m) } }`},
		nsrc{"generic", `fn @«T»(o: opt«T», d: T) T { match o { case Som(t): return t case Non(): return d } }`},
		nsrc{"generic instance", `fn @(o: opt«string») int { match o { case Non(): return 0 case Som(t): return lens(t) } }`},
		nsrc{"generic instance of int", `fn @(o: opt«int») int { match o { case Non(): return 0 case Som(t): return t + 1 } }`},
		nsrc{"generic with two parameters", `fn @() int { match etwo() { case Rt(b): return b + 1 case Lf(a): return lens(a) case Bo(b, a): return b + lens(a) } }`},
		nsrc{"generic nested", `fn @(o: opt«opt«int»») int { match o { case Non(): return 0 case Som(p): match p { case Som(i): return i case Non(): return 1 } } }`},
		nsrc{"generic of pair", `fn @«A, B»(o: two«A, B», f: fn(A) int, g: fn(B) int) int { match o { case Lf(a): return f(a) case Rt(b): return g(b) case Bo(b, a): return f(a) + g(b) } }`},
		nsrc{"empty cases", `fn @(ev: en) { match ev { case Aa(): case Bb(n): case Cc(s, m): use(m) } use(1) }`},
		nsrc{"if in case", `fn @(ev: en) int { match ev { case Aa(): if eb() { return 1 } else { return 2 } case Bb(n): while eb() { use(n) } return 3 case Cc(s, m): for i in 0 .. m { uses(s) } return 4 } }`},
	)
	return fnSchemas(rule, hdr, fs, 6)
}

// ---- function values ----

// capPositions mention the captured variable v (int) somewhere in a literal's body; the literal takes z: int and yields int.
var capPositions = []nsrc{
	{"result", `return v`}, {"operand", `return z + v`}, {"left operand", `return v - z`}, {"argument", `return id(v)`}, {"second argument", `return add(z, v)`},
	{"receiver", `return v.id()`}, {"method argument", `return z.add(v)`}, {"condition", `if v > z { return 1 } return 2`}, {"elseif condition", `if eb() { return 1 } elseif v > 2 { return 2 } return 3`},
	{"if body", `if eb() { use(v) } return z`}, {"elseif body", `if eb() { use(1) } elseif eb() { use(v) } return z`}, {"else body", `if eb() { use(z) } else { use(v) } return 0`}, {"while condition", `while v > e1() { use(z) } return 1`}, {"while body", `while eb() { use(v) } return z`},
	{"declaration", `k := v return k + z`}, {"assigned value", `k := z k = v return k`}, {"index", `a := ea() return a[v]`}, {"element value", `a := ea() a[0] = v return z`}, {"assigned index", `a := ea() a[v] = z return 1`}, {"field value", `p := ep() p.x = v return z`},
	{"range start", `for i in v .. 3 { use(i) } return z`}, {"range end", `for i in 0 .. v { use(i) } return z`}, {"descending start", `for i in v .. 0 { use(i) } return z`}, {"for body", `for i in 0 .. 2 { use(v + i) } return z`},
	{"for array", `for i in mka(v) { use(i) } return z`}, {"ternary condition", `return v > 3 ? z : 1`}, {"ternary arm", `return eb() ? v : z`}, {"ternary else", `return eb() ? z : v`}, {"array element", `return suma([z, v])`},
	{"match value", `match mke(v) { case Aa(): return 1 case Bb(n): return n case Cc(s, m): return m }`}, {"case body", `match ee() { case Aa(): return z case Bb(n): return n + v case Cc(s, m): return m }`},
	{"struct argument", `usep(Pt(v, es(), twice, eq())) return z`}, {"negation", `return -v`}, {"complement", `return ~v`}, {"comparison", `useb(z == v) return z`}, {"assignment to it", `v = z use(v) return v`},
	{"nested literal", `return apply0(fn() int = v)`}, {"nested literal and itself", `use(v) return apply(fn(y: int) int = y + v + z, 2)`}, {"nested twice", `return apply0(fn() int = apply0(fn() int = v))`},
	{"shadowed in block", `if eb() { v := e1() use(v) } return v`}, {"before shadowing", `use(v) if eb() { v := 3 use(v) } else { use(v) } return z`}, {"twice", `use(v) return v + v`}, {"function value argument", `return g(v)`}, {"printf", `printf("%d\n", v) return z`}, {"generic argument", `return gid«int»(v)`}, {"not comparison", `useb(not (v > 2)) return z`},
	{"return in loop", `while eb() { return v } return z`}, {"while declaration", `while eb() { k := v use(k) } return z`},
}

// capSources introduce v: int in the enclosing function around %s.
var capSources = []nsrc{
	{"parameter", `fn @(v: int, g: fn(int) int) { use(apply(%s, 1)) }`},
	{"local", `fn @(g: fn(int) int) { v := e1() use(apply(%s, 1)) }`},
	{"reassigned local", `fn @(g: fn(int) int) { v := e1() v = e2() use(apply(%s, v)) v = 3 use(v) }`},
	{"block local", `fn @(g: fn(int) int) { if eb() { v := e1() use(apply(%s, 1)) } }`},
	{"loop variable", `fn @(g: fn(int) int) { for v in 0 .. 3 { use(apply(%s, 1)) } }`},
	{"array loop variable", `fn @(g: fn(int) int) { for v in ea() { use(apply(%s, 1)) } }`},
	{"case variable", `fn @(g: fn(int) int) { match ee() { case Aa(): use(1) case Bb(v): use(apply(%s, 1)) case Cc(s, m): use(m) } }`},
	{"literal parameter", `fn @(g: fn(int) int) { use(apply(fn(v: int) int = apply(%s, 1), 4)) }`},
	{"literal local", `fn @(g: fn(int) int) { use(apply0(fn() int { v := e1() return apply(%s, v) })) }`},
	{"while local", `fn @(g: fn(int) int) { while eb() { v := e1() use(apply(%s, 1)) } }`},
}

func closureSchemas(rule string) []*Schema {
	var fs []nsrc
	for _, p := range capPositions {
		for _, s := range capSources {
			fs = append(fs, nsrc{s.name + " as " + p.name, strings.ReplaceAll(s.src, "%s", "fn(z: int) int { "+p.src+" }")})
		}
	}
	hdr := `
struct ops { a: fn(int) int b: fn(int, string) int n: int c: fn() fn(int) int }
fn eops() ops
fn ap5(f: fn(int, string, int, string, int) int) int = f(1, "2", 3, "4", 5)
fn ap2(f: fn(int, string) int) int = f(e1(), es())
fn apn(f: fn(int)) { f(3) }
fn aps(f: fn(string) string) string = f("q")
fn comp(f: fn(int) int, g: fn(int) int) fn(int) int = fn(x: int) int = g(f(x))
fn named2(a: int, s: string) int { uses(s) return a }
fn named5(a: int, s: string, b: int, t: string, c: int) int = a + b + c
fn gen«T»(t: T, f: fn(T) int) int = f(t)
`
	fs = append(fs, []nsrc{
		{"call with 0 arguments", `fn @(f: fn() int) int = f()`},
		{"call with 2 arguments", `fn @(f: fn(int, string) int) int { return f(e1(), es()) }`},
		{"call with 3 arguments", `fn @(f: fn(int, string, bool) int) int = f(e1(), es(), eb())`},
		{"call with 4 arguments", `fn @(f: fn(int, string, int, string) int) int { r := f(e1(), es(), e2(), es()) use(r) return r }`},
		{"call with 5 arguments", `fn @(f: fn(int, string, int, string, int) int) int = f(e1(), es(), e2(), es(), 5)`},
		{"call of nothing", `fn @(f: fn(int)) { f(1) f(e1()) }`},
		{"call in argument", `fn @(f: fn(int) int) int = f(f(f(e1())))`},
		{"call in condition", `fn @(f: fn(int) bool) int { if f(1) { return 1 } elseif f(2) { return 2 } while f(3) { use(3) } return f(4) ? 5 : 6 }`},
		{"named function value", `fn @() int { f := twice return f(3) + apply(twice, 4) + apply(f, 5) }`},
		{"named function with 2 parameters", `fn @() int = ap2(named2)`},
		{"named function with 5 parameters", `fn @() int = ap5(named5)`},
		{"literal with 5 parameters", `fn @() int = ap5(fn(a: int, s: string, b: int, t: string, c: int) int { uses(s) uses(t) return a + b + c })`},
		{"closure with 4 parameters", `fn @(k: int) fn(int, string, int, string) int = fn(a: int, s: string, b: int, t: string) int { uses(s) uses(t) return a + b + k }`},
		{"closure with 5 parameters", `fn @(k: int) int = ap5(fn(a: int, s: string, b: int, t: string, c: int) int { uses(s) uses(t) return a + b + c + k })`},
		{"captures 2", `fn @(a: int, s: string) int = apply0(fn() int { uses(s) return a })`},
		{"captures 3", `fn @(a: int, s: string, p: pt) int = apply0(fn() int { uses(s) usep(p) return a })`},
		{"captures 4", `fn @(a: int, s: string, p: pt, b: bool) int = apply0(fn() int { uses(s) usep(p) useb(b) return a })`},
		{"captures 5", `fn @(a: int, s: string, p: pt, b: bool, c: int) int = apply0(fn() int { uses(s) usep(p) useb(b) use(c) return a })`},
		{"captures 6", `fn @(a: int, s: string, p: pt, b: bool, c: int, t: string) int = apply0(fn() int { uses(s) usep(p) useb(b) uses(t) use(c) return a })`},
		{"captures function", `fn @(f: fn(int) int, g: fn(int) int) fn(int) int = fn(x: int) int = g(f(x))`},
		{"captures array", `fn @(a: []int) int = apply(fn(i: int) int { a[i] = 3 return a[0] + a.length }, 2)`},
		{"captures struct field", `fn @(p: pt) int = apply(fn(i: int) int { p.x = i return p.q.a + p.f(i) }, 2)`},
		{"captures only what it mentions", `fn @(a: int, b: string, c: pt) int { d := e1() e := es() r := apply(fn(z: int) int = z + d, a) uses(e) uses(b) usep(c) return r }`},
		{"parameter hides variable", `fn @(a: int) int = apply(fn(a: int) int = a + 1, a)`},
		{"stored in field", `fn @(k: int) { o := Ops(fn(x: int) int = x + k, named2, 3, fn() fn(int) int = twice) use(o.a(1)) use(o.b(2, "s")) use(o.c()(4)) o.a = twice use(o.a(5)) }`},
		{"stored in array", `fn @(k: int) { fs := [twice, fn(x: int) int = x + k, fn(x: int) int = x] for f in fs { use(f(2)) } g := fs[1] use(g(3)) }`},
		{"returned twice", `fn @(k: int) fn(int) fn(int) int = fn(a: int) fn(int) int = fn(b: int) int = a + b + k`},
		{"result called", `fn @(k: int) int = comp(twice, fn(x: int) int = x + k)(3)`},
		{"result called in loop", `fn @(k: int) { for i in 0 .. 3 { use(comp(fn(x: int) int = x + i, twice)(k)) } }`},
		{"conditional literal", `fn @(k: int) int { f := eb() ? twice : ef() return f(k) }`},
		{"assigned literal", `fn @(k: int) int { f := twice if eb() { f = fn(x: int) int = x + k } return f(2) }`},
		{"two literals over one variable", `fn @(k: int) { use(apply(fn(x: int) int = x + k, 1)) use(apply(fn(x: int) int = x - k, 2)) use(apply0(fn() int = k)) }`},
		{"siblings with different captures", `fn @(k: int, s: string) { use(apply(fn(x: int) int = x + k, 1)) use(apply(fn(x: int) int = x + lens(s), 2)) use(apply(fn(x: int) int = k + x + lens(s), 2)) }`},
		{"three levels", `fn @(k: int, s: string) fn(int) fn(string) fn(int) int = fn(a: int) fn(string) fn(int) int { q := a + k return fn(t: string) fn(int) int { uses(t) return fn(b: int) int { uses(s) uses(t) return q + b + a + k } } }`},
		{"literal of nothing", `fn @(k: int) { apn(fn(x: int) { use(x + k) }) apn(fn(x: int) { use(x) }) apn(fn(x: int) { if x > k { return } use(x) }) }`},
		{"string result", `fn @(s: string) string = aps(fn(t: string) string = eb() ? s : t)`},
		{"generic capture", `fn @«T»(t: T, f: fn(T) int) fn() int = fn() int = f(t)`},
		{"generic literal", `fn @«T»(ts: []T, g: fn(T, int) nothing) fn(int) nothing = fn(i: int) nothing { g(ts[i], i) }`},
		{"generic argument", `fn @(k: int) int = gen("s", fn(t: string) int = lens(t) + k)`},
		{"loop closures", `fn @(n: int) { for i in 0 .. n { f := fn(x: int) int = x * i use(f(i)) } }`},
		{"recursion through variable", `fn @(f: fn(int) int, n: int) int = n > 3 ? f(n) : @(fn(x: int) int = f(x) + n, n + 1)`},
		{"variable in call position of method", `fn @(f: fn(int) int) int { x := e1() return x.f() }`},
		{"captured variable in call position of method", `fn @(f: fn(int) int) int = apply(fn(y: int) int = y.f(), 2)`},
		{"captured in loop body call", `fn @(f: fn(int) int, a: []int) int { return apply0(fn() int { r := 0 for i in a { r = r + f(i) } return r }) }`},
		{"variable declared after literal", `fn @() int { f := fn(x: int) int { k := x + 1 return k } k := e1() return f(k) }`},
		{"block variables of literal", `fn @(a: int) int = apply(fn(z: int) int { if z > 1 { q := z + a use(q) } else { q := z use(q) } while eb() { q := 1 use(q) } for q in 0 .. 2 { use(q) } match ee() { case Aa(): q := 2 use(q) case Bb(q): use(q) case Cc(s, q): use(q) } return a }, 1)`},
		{"if variables of literal", `fn @(a: int) int = apply(fn(z: int) int { if z > 1 { w := e1() use(w) return w } return z }, a)`},
	}...)
	return fnSchemas(rule, hdr, fs, 6)
}
