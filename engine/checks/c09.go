package checks

import (
	"fmt"
	"strings"
)

func contains(s, x string) bool { return x != "" && strings.Contains(s, x) }

// callables are ways to designate a function of n int parameters returning int; %s are the arguments.
func callables(n int) []item {
	ps := strings.Repeat("int, ", n)
	ps = strings.TrimSuffix(ps, ", ")
	f := "fn(" + ps + ") int"
	var lp []string
	for i := 0; i < n; i++ {
		lp = append(lp, fmt.Sprintf("p%d: int", i))
	}
	lit := "fn(" + strings.Join(lp, ", ") + ") int = 1"
	r := []item{
		{"declared function", fmt.Sprintf("fn @() { v := f%d(%%s) }", n), true},
		{"extern function", fmt.Sprintf("fn @() { v := x%d(%%s) }", n), true},
		{"generic function", fmt.Sprintf("fn @() { v := g%d(%%s) }", n), true},
		{"explicit generic function", fmt.Sprintf("fn @() { v := g%d«int»(%%s) }", n), true},
		{"struct constructor", fmt.Sprintf("fn @() { v := S%d(%%s) }", n), true},
		{"statement", fmt.Sprintf("fn @() { f%d(%%s) }", n), true},
		{"nested", fmt.Sprintf("fn @() { use(f%d(%%s)) }", n), true},
	}
	if n <= 5 {
		r = append(r,
			item{"enum constructor", fmt.Sprintf("fn @() { v := C%d(%%s) }", n), true},
			item{"parameter", "fn @(f: " + f + ") { v := f(%s) }", true},
			item{"field", "fn @(b: box«" + f + "») { v := b.f(%s) }", true},
			item{"result", "fn @(b: fn() " + f + ") { v := b()(%s) }", true},
			item{"element", "fn @(b: []" + f + ") { v := b[0](%s) }", true},
			item{"variable", "fn @() { f := " + lit + " v := f(%s) }", true},
			item{"captured", "fn @(f: " + f + ") { w := fn() int = f(%s) }", true},
			item{"named value", fmt.Sprintf("fn @() { f := f%d v := f(%%s) }", n), true})
	}
	return r
}

func init() {
	Registry["C09"] = func(c *Ctx) {
		var hb strings.Builder
		hb.WriteString(ahdr + argHdr)
		for n := 0; n <= 6; n++ {
			var ps, xs, fs []string
			for i := 0; i < n; i++ {
				ps = append(ps, fmt.Sprintf("p%d: int", i))
				xs = append(xs, fmt.Sprintf("p%d: X", i))
				fs = append(fs, fmt.Sprintf("f%d: int", i))
			}
			p := strings.Join(ps, ", ")
			fmt.Fprintf(&hb, "fn f%d(%s) int = 1\nfn x%d(%s) int\nfn g%d«X»(%s) int = 1\nstruct s%d { %s }\n", n, p, n, p, n, strings.Join(xs, ", "), n, strings.Join(fs, " "))
		}
		hb.WriteString("enum cs {")
		for n := 0; n <= 5; n++ {
			var ps []string
			for i := 0; i < n; i++ {
				ps = append(ps, fmt.Sprintf("p%d: int", i))
			}
			fmt.Fprintf(&hb, " C%d(%s)", n, strings.Join(ps, ", "))
		}
		hb.WriteString(" }\n")
		h := hb.String()
		var it []item
		add := func(name, src string, ok bool) { it = append(it, item{name, src, ok}) }
		for n := 0; n <= 6; n++ {
			for _, k := range callables(n) {
				for m := 0; m <= 6; m++ {
					args := make([]string, m)
					for i := range args {
						args[i] = fmt.Sprint(i + 1)
					}
					add(fmt.Sprintf("%s of %d with %d arguments", k.name, n, m), strings.Replace(k.src, "%s", strings.Join(args, ", "), 1), m == n)
				}
				// a wrong argument at every position; generic functions take any type
				if strings.Contains(k.name, "generic") {
					continue
				}
				for i := 0; i < n; i++ {
					for _, bad := range []string{`"s"`, "true", "[1]", "main", "use(1)", "Aa()", "int", "nowhere", "f1"} {
						args := make([]string, n)
						for j := range args {
							args[j] = fmt.Sprint(j + 1)
						}
						args[i] = bad
						add(fmt.Sprintf("%s of %d with %s as argument %d", k.name, n, bad, i+1), strings.Replace(k.src, "%s", strings.Join(args, ", "), 1), false)
					}
				}
			}
		}
		c.acceptReject("number and types of arguments", h, it)
		it = fnTypeItems()
		for _, d := range deepTypes(c.Thorough) {
			if strings.HasPrefix(d.name, "argument") {
				it = append(it, d)
			}
		}
		c.acceptReject("nested argument types", h, it)
		c.Min("nested argument types", 2500)
		it = nil
		c.acceptReject("argument types", h, pairItems(argContexts, typeUniverse, func(k, a, b string) bool {
			// a receiver's field of that name would be called instead
			return k == "receiver" && strings.HasPrefix(b, "box")
		}))
		// closed types through declared functions, constructors and overloads
		var closed []string
		for _, t := range typeUniverse {
			if !strings.ContainsAny(t, "TU") {
				closed = append(closed, t)
			}
		}
		var dh strings.Builder
		dh.WriteString(ahdr)
		for i, a := range closed {
			fmt.Fprintf(&dh, "fn take%d(x: %s) int = 1\nfn ext%d(x: %s) int\nfn sec%d(n: int, x: %s, s: string) int = 2\nfn mk%d() %s\nstruct st%d { v: %s }\nenum ec%d { Ec%d(v: %s) }\nfn gen%d«X»(x: %s, y: X) X = y\n", i, a, i, a, i, a, i, a, i, a, i, i, a, i, a)
		}
		for i, a := range closed {
			for j, b := range closed {
				ok := i == j
				add("declared parameter "+a+" given "+b, fmt.Sprintf("fn @(b: %s) { v := take%d(b) }", b, i), ok)
				add("extern parameter "+a+" given "+b, fmt.Sprintf("fn @(b: %s) { v := ext%d(b) }", b, i), ok)
				add("second parameter "+a+" given "+b, fmt.Sprintf("fn @(b: %s) { v := sec%d(1, b, \"s\") }", b, i), ok)
				add("call result "+b+" for "+a, fmt.Sprintf("fn @() { v := take%d(mk%d()) }", i, j), ok)
				add("declared result "+b+" returned as "+a, fmt.Sprintf("fn @() %s = mk%d()", a, j), ok)
				add("constructor of "+a+" given "+b, fmt.Sprintf("fn @(b: %s) { v := St%d(b) }", b, i), ok)
				add("enum constructor of "+a+" given "+b, fmt.Sprintf("fn @(b: %s) { v := Ec%d(b) }", b, i), ok)
				if !strings.HasPrefix(b, "pt") && !strings.HasPrefix(b, "qt") {
					add("receiver "+a+" given "+b, fmt.Sprintf("fn @(b: %s) { v := b.take%d() }", b, i), ok)
				}
				add("generic function's own type "+a+" given "+b, fmt.Sprintf("fn @(b: %s) { v := gen%d(b, 1) }", b, i), ok)
				add("generic result with parameter "+a+" given "+b, fmt.Sprintf("fn @(a: %s, b: %s) %s = gen%d(a, b)", a, b, a, i), ok)
			}
		}
		c.acceptReject("declared parameter types", dh.String(), it)
		it = nil
		// overloads: exactly the member with the argument's type
		oh := ahdr + `fn ov(x: int) string = "i"
fn ov(x: string) int = 1
fn ov(x: []int) bool = true
fn ov(x: pt) pt = x
fn ov(x: int, y: int) pt = Pt(x, "p")
fn ov(x: fn(int) int) en = Aa()
fn ov(x: en) []int = [1]
fn ov(x: opt«int») []string = ["s"]
fn one(x: int) int = x
fn named(x: int) int = x
fn named(x: string) string = x
fn named(x: bool) int = 1
fn hof(f: fn(int) int) int = f(1)
fn hofs(f: fn(string) string) string = f("s")
fn hofb(f: fn(bool) int) int = 1
fn hofx(f: fn(bool) bool) int = 1
fn ghof«X, Y»(x: X, f: fn(X) Y) Y = f(x)
fn bn«X»() opt«X» = Non«X»()
fn bx«X, Y»(x: X) Y
fn rec«X»(x: X, n: int) X { if n == 0 { return x } return rec(x, n - 1) }
`
		ovs := map[string]string{"int": "string", "string": "int", "[]int": "bool", "pt": "pt", "fn(int) int": "en", "en": "[]int", "opt«int»": "[]string"}
		for _, b := range typeUniverse {
			r, ok := ovs[b]
			add("overloads given "+b, "fn @«T, U»(b: "+b+") { v := ov(b) }", ok)
			add("overloads on receiver "+b, "fn @«T, U»(b: "+b+") { v := b.ov() }", ok)
			for _, a := range typeUniverse {
				add("overload given "+b+" as "+a, "fn @«T, U»(b: "+b+") "+a+" = ov(b)", ok && a == r)
			}
			add("overload pair given "+b, "fn @«T, U»(b: "+b+") { v := ov(1, b) }", b == "int")
			add("overload pair given first "+b, "fn @«T, U»(b: "+b+") { v := ov(b, 1) }", b == "int")
			// a call of something that is not a function
			isFn := strings.HasPrefix(b, "fn(")
			add("call of "+b, "fn @«T, U»(b: "+b+") { b() }", b == "fn() nothing" || b == "fn() int")
			add("call with argument of "+b, "fn @«T, U»(b: "+b+") { v := b(1) }", strings.HasPrefix(b, "fn(int) "))
			add("call of element "+b, "fn @«T, U»(b: []"+b+") { v := b[0](1) }", strings.HasPrefix(b, "fn(int) "))
			add("call of field "+b, "fn @«T, U»(b: box«"+b+"») { v := b.f(1) }", strings.HasPrefix(b, "fn(int) "))
			add("call of result "+b, "fn @«T, U»(b: fn() "+b+") { v := b()(1) }", strings.HasPrefix(b, "fn(int) "))
			_ = isFn
			add("recursive generic "+b, "fn @«T, U»(b: "+b+") "+b+" = rec(b, 3)", true)
			add("unbound result "+b, "fn @«T, U»(b: "+b+") { v := bx(b) }", false)
			add("bound explicitly "+b, "fn @«T, U»(b: "+b+") "+b+" = bx«int, "+b+"»(1)", true)
			add("one type argument of two "+b, "fn @«T, U»(b: "+b+") { v := bx«"+b+"»(b) }", false)
			add("three type arguments of two "+b, "fn @«T, U»(b: "+b+") { v := bx«"+b+", int, int»(b) }", false)
			add("type arguments of plain function "+b, "fn @«T, U»(b: "+b+") { v := one«"+b+"»(1) }", false)
			add("type arguments of function value "+b, "fn @«T, U»(b: "+b+", f: fn(int) int) { v := f«"+b+"»(1) }", false)
		}
		for _, t := range []struct {
			n, src string
			ok     bool
		}{
			{"overloaded function as argument", "{ v := hof(named) }", true}, {"overloaded function as argument, second", "{ v := hofs(named) }", true}, {"overloaded function as argument, third", "{ v := hofb(named) }", true}, {"no overload fits the argument", "{ v := hofx(named) }", false},
			{"ambiguous function value", "{ v := named }", false}, {"overloaded with generic", "{ v := ghof(1, named) use(v) }", true}, {"overloaded with generic, string", `{ v := ghof("s", named) }`, true}, {"overloaded with generic, none", `{ v := ghof([1], named) }`, false}, {"overloaded with generic, wrong result", `{ v := ghof("s", named) use(v) }`, false},
			{"undeclared", "{ nofn() }", false}, {"undeclared with argument", "{ v := nofn(1) }", false}, {"undeclared method", "{ v := 1.nofn() }", false}, {"call of type", "{ v := pt(1) }", false}, {"call of literal", "{ v := 1(2) }", false}, {"call of string", `{ v := "s"(2) }`, false}, {"unbound", "{ v := Non() }", false}, {"unbound function", "{ v := bn() }", false}, {"bound", "{ v := bn«int»() }", true}, {"bound to unknown", "{ v := bn«nowhere»() }", false}, {"bound to value", "{ x := 1 v := bn«x»() }", false}, {"no such overload", "{ v := ov() }", false}, {"no such overload count", "{ v := ov(1, 2, 3) }", false}, {"recursive generic mismatch", `{ v := rec("s", "t") }`, false}, {"generic result used", `{ use(rec(1, 2)) }`, true}, {"generic result misused", `{ use(rec("s", 2)) }`, false}, {"printf", `{ printf("%d\n", 1) }`, true}, {"debug", `{ debug("%d\n", "s", 1) }`, true}, {"nested wrong", "{ use(one(ov(1))) }", false}, {"chain", "{ v := 1.one().one() use(v) }", true}, {"wrong chain", `{ v := 1.ov().one() }`, false}, {"chain over overloads", `{ v := "s".ov().ov() w := v.length use(w) }`, true},
			{"variable named printf", "{ printf := 1 printf(2) }", false}, {"variable named debug", "{ debug := \"s\" debug(\"a\", \"b\") }", false}, {"variable named unsafe", "{ unsafe := 1 v := unsafe(2, 3, type(int)) }", false}, {"function variable named printf", "{ printf := fn(x: int) int = x use(printf(2)) }", true}, {"function variable named printf misused", "{ printf := fn(x: int) int = x printf(\"s\") }", false}, {"function variable named unsafe", "{ unsafe := fn(x: int) int = x use(unsafe(2)) }", true}, {"unsafe", "{ v := unsafe(1, 0, type([]int)) use(v[0]) }", true}, {"unsafe result misused", "{ v := unsafe(1, 0, type([]int)) use(v) }", false}, {"unsafe with two arguments", "{ v := unsafe(1, type([]int)) }", false}, {"unsafe with unknown type", "{ v := unsafe(1, 0, type(nowhere)) }", false},
			{"extern function value", "{ v := hof(xone) }", false}, {"closure passed", "{ k := 2 v := hof(fn(x: int) int = x + k) }", true}, {"closure with wrong parameter", "{ k := 2 v := hof(fn(x: string) int = k) }", false}, {"closure with wrong result", `{ v := hof(fn(x: int) string = "s") }`, false}, {"closure with two parameters", `{ v := hof(fn(x: int, y: int) int = x) }`, false},
		} {
			add(t.n, "fn @() "+t.src, t.ok)
			add(t.n+" in literal", "fn @() { w := fn() nothing "+t.src+" }", t.ok)
		}
		c.acceptReject("resolution", oh+"fn xone(x: int) int\n", it)
	}
}
