package checks

import (
	"fmt"
	"strings"
)

// header declares uninterpreted functions (the most general expressions of each type) and types used by schemata.
const shdr = `
struct pt { x: int y: string f: fn(int) int q: qt }
struct qt { a: int s: string arr: []int t: pt }
enum en { Aa() Bb(n: int) Cc(s: string, m: int) }
enum opt«T» { Som(t: T) Non() }
fn e1() int
fn e2() int
fn es() string
fn eb() bool
fn ea() []int
fn esa() []string
fn ep() pt
fn eq() qt
fn ee() en
fn eo() opt«string»
fn ef() fn(int) int
fn use(x: int) nothing
fn uses(x: string) nothing
fn usep(x: pt) nothing
fn useb(x: bool) nothing
fn id(x: int) int
fn add(x: int, y: int) int
fn lens(x: string) int
fn mkp(x: int) pt
fn mke(x: int) en
fn mka(x: int) []int
fn suma(a: []int) int = a[0]
fn cnts(a: []string) int = a.length
fn apply(f: fn(int) int, x: int) int = f(x)
fn apply0(f: fn() int) int = f()
fn gid«T»(x: T) T = x
fn twice(i: int) int = i + i
`

// intPositions are the places an int expression can be nested in; %s is the expression. Each is a function body.
var intPositions = []struct{ name, src string }{
	{"argument", `use(%s)`},
	{"second argument", `use(add(e2(), %s))`},
	{"first argument", `use(add(%s, e2()))`},
	{"nested argument", `use(id(id(%s)))`},
	{"call statement", `id(%s)`},
	{"left operand", `use(%s + e2())`},
	{"right operand", `use(e2() * (%s))`},
	{"negated", `use(-(%s))`},
	{"complemented", `use(~(%s))`},
	{"comparison", `useb((%s) < e2())`},
	{"comparison right", `useb(e2() == (%s))`},
	{"not comparison", `useb(not((%s) > 3))`},
	{"and", `useb(eb() and (%s) >= 3)`},
	{"or", `useb((%s) <= 3 or eb())`},
	{"shift", `use(e2() << (%s))`},
	{"declaration", `v := %s use(v)`},
	{"assignment", `v := 1 v = %s use(v)`},
	{"field assignment", `p := ep() p.x = %s use(p.x)`},
	{"nested field assignment", `p := ep() p.q.a = %s`},
	{"element assignment", `a2 := ea() a2[e2()] = %s`},
	{"assigned index", `a2 := ea() a2[%s] = e2()`},
	{"index", `a2 := ea() use(a2[%s])`},
	{"index of call", `use(ea()[%s])`},
	{"index of field", `p := eq() use(p.arr[%s])`},
	{"if condition", `if (%s) > 2 { use(1) } use(2)`},
	{"elseif condition", `if eb() { use(1) } elseif (%s) == 2 { use(2) } else { use(3) }`},
	{"while condition", `while (%s) > e2() { use(1) }`},
	{"if body", `if eb() { use(%s) }`},
	{"elseif body", `if eb() { use(1) } elseif eb() { use(%s) }`},
	{"else body", `if eb() { use(1) } else { use(%s) }`},
	{"while body", `while eb() { use(%s) }`},
	{"nested block", `while eb() { if eb() { v := %s use(v) } use(9) }`},
	{"for body", `for i in 0 .. 2 { use(%s) use(i) }`},
	{"for array body", `for s in esa() { uses(s) use(%s) }`},
	{"for start", `for i in %s .. e2lim { use(i) }`},
	{"for end", `for i in 0 .. lim { use(i) } use(%s)`},
	{"for array", `for i in mka(%s) { use(i) }`},
	{"descending for", `for i in %s .. 0 { use(i) }`},
	{"array element", `use(suma([e2(), %s]))`},
	{"first array element", `use(suma([%s, e2()]))`},
	{"ternary condition", `use((%s) > 3 ? 1 : 2)`},
	{"ternary arm", `use(eb() ? %s : 2)`},
	{"ternary other arm", `use(eb() ? 1 : (%s))`},
	{"match value", `match mke(%s) { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) }`},
	{"case body", `match ee() { case Aa(): use(1) case Bb(n): use(%s) case Cc(s, m): use(m) }`},
	{"last case body", `match ee() { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(%s) uses(s) }`},
	{"struct argument", `usep(Pt(%s, es(), twice, eq()))`},
	{"enum argument", `c := Bb(%s) match c { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) }`},
	{"receiver", `id(%s).use()`},
	{"method argument", `e2().add(%s).use()`},
	{"generic argument", `use(gid«int»(%s))`},
	{"generic argument, inferred", `use(gid(%s))`},
	{"function value argument", `f := ef() use(f(%s))`},
	{"field function argument", `p := ep() use(p.f(%s))`},
	{"result function argument", `use(ef()(%s))`},
	{"printf argument", `printf("%%d %%d\n", e2(), %s)`},
	{"anonymous function body", `use(apply0(fn() int = %s))`},
	{"anonymous block", `use(apply0(fn() int { return %s }))`},
	{"anonymous block condition", `use(apply0(fn() int { if (%s) > 1 { return 1 } return 2 }))`},
	{"nested anonymous function", `use(apply0(fn() int { return apply0(fn() int = %s) }))`},
	{"closure body", `k := e2() use(apply0(fn() int = k + (%s)))`},
	{"nested closure body", `k := e2() use(apply0(fn() int = k + apply0(fn() int = k - (%s))))`},
	{"closure loop", `k := e2() use(apply0(fn() int { r := 0 for i in 0 .. 3 { r = r + k + (%s) } return r }))`},
	{"return in if", `if eb() { use(%s) return } use(4)`},
}

// intConstructs are int expressions; x: int and b: bool, ar: []int, pp: pt are parameters in scope.
var intConstructs = []struct{ name, src string }{
	{"variable", `x`},
	{"literal", `7`},
	{"negative literal", `-5`},
	{"hexadecimal literal", `0x1F`},
	{"call", `e1()`},
	{"method call", `x.id()`},
	{"operator", `(x + e1())`},
	{"ternary", `(b ? x : e1())`},
	{"field", `pp.x`},
	{"nested field", `pp.q.t.x`},
	{"element", `ar[x]`},
	{"element of field", `pp.q.arr[1]`},
	{"array literal", `suma([x, e1(), 3])`},
	{"string array literal", `cnts(["a", es(), "b"])`},
	{"string literal", `lens("txt")`},
	{"struct constructor", `Pt(x, es(), twice, eq()).x`},
	{"anonymous function", `apply(fn(z: int) int = z + 1, e1())`},
	{"closure", `apply(fn(z: int) int = z + x, e1())`},
	{"closure over two", `apply(fn(z: int) int { if b { return x } return z }, 2)`},
	{"closure in closure", `apply0(fn() int = apply(fn(z: int) int = z + x, 4))`},
	{"named function value", `apply(twice, x)`},
	{"function parameter call", `g(x)`},
	{"field function call", `pp.f(x)`},
	{"generic call", `gid«int»(x)`},
	{"generic function value", `gid«fn(int) int»(g)(3)`},
	{"length", `ar.length`},
}

// nestingSchemas: every construct in every position, several per program.
func nestingSchemas(rule string, cons []struct{ name, src string }) []*Schema {
	return nestedIn(rule, cons, intPositions)
}

func nestedIn(rule string, cons, intPositions []struct{ name, src string }) []*Schema {
	var r []*Schema
	for _, k := range cons {
		for i := 0; i < len(intPositions); i += 4 {
			var b strings.Builder
			b.WriteString(shdr)
			var names []string
			for j := i; j < i+4 && j < len(intPositions); j++ {
				p := intPositions[j]
				names = append(names, p.name)
				src := strings.ReplaceAll(p.src, "%%d", "\x00")
				src = strings.ReplaceAll(src, "%s", k.src)
				src = strings.ReplaceAll(src, "\x00", "%d")
				fmt.Fprintf(&b, "fn t%d(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, lim: int) { e2lim := lim + 1 %s use(e2lim) }\n", j, src)
			}
			// the value as a result, in block and expression functions
			fmt.Fprintf(&b, "fn r%d(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int) int { use(0) return %s }\n", i, k.src)
			fmt.Fprintf(&b, "fn s%d(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int) int = %s\n", i, k.src)
			b.WriteString("fn main() {}\n")
			r = append(r, &Schema{k.name + " in " + strings.Join(names, ", "), b.String(), rule, nil})
		}
	}
	return r
}
