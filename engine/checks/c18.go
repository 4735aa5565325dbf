package checks

import (
	"fmt"
	"strings"
)

// scopes open a scope around %s; flag: the scope is a function literal.
var scopes = []nsrc{
	{"if", `if eb() { %s }`},
	{"elseif", `if eb() { use(1) } elseif eb() { %s }`},
	{"else", `if eb() { use(1) } else { %s }`},
	{"while", `while eb() { %s }`},
	{"range", `for r1 in 0 .. 2 { %s }`},
	{"descending range", `for r1 in 2 .. 0 { %s }`},
	{"array loop", `for r1 in ea() { %s }`},
	{"case", `match ee() { case Aa(): %s case Bb(c1): use(1) case Cc(c2, c3): use(2) }`},
	{"case with variables", `match ee() { case Aa(): use(1) case Bb(c1): use(2) case Cc(c2, c3): %s }`},
	{"literal", `l1 := fn() nothing { %s }`},
	{"argument literal", `run(fn() nothing { %s })`},
}

func scopeItems() []item {
	var it []item
	add := func(name, src string, ok bool) { it = append(it, item{name, src, ok}) }
	for _, s := range scopes {
		in := func(x string) string { return strings.Replace(s.src, "%s", x, 1) }
		n := s.name
		add(n+": used inside", "fn @() { "+in("v := 1 use(v)")+" }", true)
		add(n+": used after", "fn @() { "+in("v := 1 use(v)")+" use(v) }", false)
		add(n+": assigned after", "fn @() { "+in("v := 1 use(v)")+" v = 2 }", false)
		add(n+": used before", "fn @() { use(v) "+in("v := 1 use(v)")+" }", false)
		add(n+": used before declaration inside", "fn @() { "+in("use(v) v := 1")+" }", false)
		add(n+": used in own initialiser", "fn @() { "+in("v := v + 1 use(v)")+" }", false)
		add(n+": shadowed initialiser", "fn @() { v := 1 "+in("v := v + 1 use(v)")+" use(v) }", true)
		add(n+": outer visible", "fn @() { v := 1 "+in("use(v)")+" }", true)
		add(n+": parameter visible", "fn @(v: int) { "+in("use(v)")+" }", true)
		add(n+": later outer invisible", "fn @() { "+in("use(v)")+" v := 1 use(v) }", false)
		add(n+": redeclared inside", "fn @() { "+in("v := 1 v := 2")+" }", false)
		add(n+": redeclared with other type", "fn @() { "+in("v := 1 v := \"s\"")+" }", false)
		add(n+": shadows variable", "fn @() { v := \"s\" "+in("v := 1 use(v)")+" uses(v) }", true)
		add(n+": shadows parameter", "fn @(v: string) { "+in("v := 1 use(v)")+" uses(v) }", true)
		add(n+": shadow keeps its type", "fn @() { v := \"s\" "+in("v := 1 uses(v)")+" }", false)
		add(n+": outer keeps its type", "fn @() { v := \"s\" "+in("v := 1 use(v)")+" use(v) }", false)
		add(n+": sibling scopes", "fn @() { "+in("v := 1 use(v)")+" "+strings.ReplaceAll(in("v := \"s\" uses(v)"), "l1", "l2")+" }", true)
		add(n+": sibling invisible", "fn @() { "+in("v := 1 use(v)")+" "+strings.ReplaceAll(in("use(v)"), "l1", "l2")+" }", false)
		add(n+": outer after shadow", "fn @() { v := 1 "+in("w := v use(w)")+" v = 3 use(v) }", true)
		add(n+": same name after", "fn @() { "+in("v := 1 use(v)")+" v := \"s\" uses(v) }", true)
		add(n+": undeclared", "fn @() { "+in("use(nowhere)")+" }", false)
		add(n+": undeclared assigned", "fn @() { "+in("nowhere = 1")+" }", false)
		add(n+": undeclared type", "fn @() { "+in("f := fn(x: nowhere) int = 1")+" }", false)
		add(n+": undeclared result type", "fn @() { "+in("f := fn(x: int) nowhere = x")+" }", false)
		add(n+": type as value", "fn @() { "+in("v := pt")+" }", false)
		add(n+": builtin type as value", "fn @() { "+in("use(int)")+" }", false)
		add(n+": type parameter as value", "fn @«T»() { "+in("v := T")+" }", false)
		add(n+": value as type", "fn @(x: int) { "+in("f := fn(y: x) int = 1")+" }", false)
		add(n+": function as type", "fn @(x: int) { "+in("f := fn(y: use) int = 1")+" }", false)
		add(n+": constructor as type", "fn @(x: int) { "+in("f := fn(y: Pt) int = 1")+" }", false)
		add(n+": shadowed function", "fn @() { "+in("e1 := 2 use(e1)")+" use(e1()) }", true)
		add(n+": shadowed function called", "fn @() { "+in("e1 := 2 use(e1())")+" }", false)
		add(n+": shadowed by function value", "fn @() { "+in("e1 := fn() string = \"s\" uses(e1())")+" use(e1()) }", true)
		for _, o := range scopes {
			two := func(x string) string {
				y := strings.NewReplacer("r1", "q1", "c1", "d1", "c2", "d2", "c3", "d3", "l1", "k1").Replace(o.src)
				return in(strings.Replace(y, "%s", x, 1))
			}
			add(n+" in "+o.name+": outermost visible", "fn @() { v := 1 "+two("use(v)")+" }", true)
			add(n+" in "+o.name+": used after", "fn @() { "+two("v := 1 use(v)")+" use(v) }", false)
			add(n+" in "+o.name+": three declarations", "fn @(v: string) { uses(v) "+two("v := 1 use(v)")+" uses(v) }", true)
			add(n+" in "+o.name+": inner type", "fn @(v: string) { uses(v) "+two("v := 1 uses(v)")+" }", false)
		}
	}
	// loop and case variables
	for _, l := range []nsrc{{"range", "for i in 0 .. 3 { %s }"}, {"descending", "for i in 3 .. 0 { %s }"}, {"array", "for i in ea() { %s }"}, {"case", "match ee() { case Aa(): use(1) case Bb(i): %s case Cc(s, m): use(2) }"}, {"parameter of literal", "g := fn(i: int) nothing { %s }"}} {
		in := func(x string) string { return strings.Replace(l.src, "%s", x, 1) }
		n := l.name + " variable"
		add(n+" inside", "fn @() { "+in("use(i)")+" }", true)
		add(n+" after", "fn @() { "+in("use(i)")+" use(i) }", false)
		add(n+" before", "fn @() { use(i) "+in("use(i)")+" }", false)
		add(n+" shadows", "fn @(i: string) { "+in("use(i)")+" uses(i) }", true)
		add(n+" type", "fn @(i: string) { "+in("uses(i)")+" }", false)
		add(n+" redeclared", "fn @() { "+in("i := 2 use(i)")+" }", false)
		add(n+" redeclared in nested block", "fn @() { "+in("if eb() { i := \"s\" uses(i) } use(i)")+" }", true)
		add(n+" in literal", "fn @() { "+in("run(fn() nothing { use(i) })")+" }", true)
	}
	add("loop range cannot see its variable", "fn @() { for i in 0 .. i { use(i) } }", false)
	add("loop array cannot see its variable", "fn @() { for i in [i] { use(i) } }", false)
	add("loop array sees outer", "fn @(i: []string) { for i in i { uses(i) } }", true)
	add("match value cannot see variables", "fn @() { match mke(n) { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) } }", false)
	add("case variables of other case", "fn @() { match ee() { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(n) } }", false)
	// functions
	add("parameter redeclared", "fn @(x: int) { x := 2 use(x) }", false)
	add("parameter twice", "fn @(x: int, x: int) { use(x) }", false)
	add("parameter twice, other type", "fn @(x: int, y: int, x: string) { use(y) }", false)
	add("literal parameter twice", "fn @() { f := fn(x: int, x: string) int = 1 }", false)
	add("type parameter twice", "fn @«T, T»(x: T) { }", false)
	add("other function's parameter", "fn @(zz9: int) { use(zz8) }", false)
	add("literal's parameter outside", "fn @() { f := fn(x: int) int = x use(x) }", false)
	add("literal's variable outside", "fn @() { f := fn() int { x := 1 return x } use(x) }", false)
	add("literal's variable in sibling literal", "fn @() { f := fn() int { x := 1 return x } g := fn() int = x }", false)
	add("literal sees enclosing", "fn @(a: int) { b := 2 f := fn() int = a + b use(f()) }", true)
	add("literal does not see later", "fn @() { f := fn() int = b b := 2 use(f() + b) }", false)
	add("literal does not see itself", "fn @() { f := fn(x: int) int = f(x) }", false)
	add("literal parameter shadows", "fn @(a: string) { f := fn(a: int) int = a use(f(1)) uses(a) }", true)
	add("type parameter outside", "fn @(x: int) T = x", false)
	add("type parameter of enclosing in literal", "fn @«T»(x: T) { f := fn(y: T) T = y }", true)
	add("unknown parameter type", "fn @(x: nowhere) { }", false)
	add("unknown array type", "fn @(x: []nowhere) { }", false)
	add("unknown function type", "fn @(x: fn(nowhere) int) { }", false)
	add("unknown function result type", "fn @(x: fn(int) nowhere) { }", false)
	add("unknown type argument", "fn @(x: opt«nowhere») { }", false)
	add("unknown result type", "fn @() nowhere = 1", false)
	add("value as parameter type", "fn @(x: e1) { }", false)
	add("constructor as parameter type", "fn @(x: Pt) { }", false)
	add("enum constructor as parameter type", "fn @(x: Aa) { }", false)
	add("parameter as type", "fn @(x: int, y: x) { }", false)
	add("type as argument", "fn @() { use(pt) }", false)
	add("enum as argument", "fn @() { use(en) }", false)
	add("type as operand", "fn @() { v := 1 + int }", false)
	add("type as condition", "fn @() { if bool { } }", false)
	add("type returned", "fn @() int = int", false)
	add("type indexed", "fn @() { v := pt[0] }", false)
	add("type selected", "fn @() { v := pt.x }", false)
	add("type assigned", "fn @() { pt = 1 }", false)
	add("type called", "fn @() { v := int(1) }", false)
	add("type as array element", "fn @() { v := [int] }", false)
	add("type as range", "fn @() { for i in 0 .. int { } }", false)
	add("type matched", "fn @() { match en { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) } }", false)
	add("type as printf argument", "fn @() { printf(\"%d\", int) }", false)
	add("undeclared as printf argument", "fn @() { printf(\"%d\", nowhere) }", false)
	add("function may share a type's name", "fn @() { v := both(1) use(v) }", true)
	add("types without type parameters", "fn @(x: int«int») { }", false)
	add("struct without type parameters", "fn @(x: pt«int») { }", false)
	add("enum without type parameters", "fn @(x: en«int») { }", false)
	add("too many type arguments", "fn @(x: opt«int, int») { }", false)
	add("declared twice in body", "fn @() { v := 1 v := 2 }", false)
	add("redeclared after block", "fn @() { v := 1 if eb() { use(v) } v := 2 }", false)
	return it
}

// topItems are whole programs.
func topItems() []item {
	var it []item
	add := func(name, src string, ok bool) { it = append(it, item{name, src, ok}) }
	decls := map[string]string{"struct": "struct dup { x: int }", "enum": "enum dup { Du1() }", "generic struct": "struct dup«T» { x: T }", "generic enum": "enum dup«T» { Du2(t: T) }"}
	for n, d := range decls {
		for m, e := range decls {
			add("type declared twice: "+n+", "+m, d+"\n"+strings.NewReplacer("Du1", "Dv1", "Du2", "Dv2").Replace(e)+"\n", false)
		}
		for _, b := range []string{"int", "bool", "string", "bytes", "pointer", "nothing"} {
			add(n+" named "+b, strings.ReplaceAll(d, "dup", b)+"\n", false)
		}
	}
	for _, ps := range []string{"", "x: int", "x: string, y: int", "x: []int", "x: pt", "f: fn(int) int", "x: opt«int»"} {
		q := strings.NewReplacer("x:", "z:", "y:", "w:", "f:", "g:").Replace(ps)
		add("function declared twice ("+ps+")", fmt.Sprintf("fn dup(%s) int = 1\nfn dup(%s) int = 2\n", ps, q), false)
		add("function declared twice with other result ("+ps+")", fmt.Sprintf("fn dup(%s) int = 1\nfn dup(%s) string = \"s\"\n", ps, q), false)
		add("block and expression ("+ps+")", fmt.Sprintf("fn dup(%s) int { return 1 }\nfn dup(%s) int = 2\n", ps, q), false)
		if ps != "" {
			add("function overloaded ("+ps+")", fmt.Sprintf("fn dup(%s) int = 1\nfn dup() int = 2\n", ps), true)
			add("function overloaded with bool ("+ps+")", fmt.Sprintf("fn dup(%s) int = 1\nfn dup(b: bool) int = 2\n", ps), true)
		}
	}
	add("constructor twice in enum", "enum dup { Ca() Ca() }\n", false)
	add("constructor twice with parameters", "enum dup { Ca() Ca(n: int) }\n", false)
	add("constructor of two enums", "enum dup { Ca() }\nenum dup2 { Ca() }\n", false)
	add("constructor parameter twice", "enum dup { Ca(n: int, n: int) }\n", false)
	add("function named like enum constructor", "enum dup { Ca() }\nfn Ca() int = 1\n", false)
	add("function named like struct constructor", "struct dup { x: int }\nfn Dup(x: int) int = 1\n", false)
	add("function named like struct constructor, other parameters", "struct dup { x: int }\nfn Dup() int = 1\n", false)
	add("struct constructor named like enum constructor", "struct dup { x: int }\nenum e9 { Dup() }\n", false)
	add("field twice", "struct dup { x: int x: int }\n", false)
	add("field twice, other type", "struct dup { x: int y: int x: string }\n", false)
	add("unknown field type", "struct dup { x: nowhere }\n", false)
	add("unknown field array type", "struct dup { x: []nowhere }\n", false)
	add("unknown field type argument", "struct dup { x: opt«nowhere» }\n", false)
	add("value as field type", "struct dup { x: e1 }\n", false)
	add("unknown constructor parameter type", "enum dup { Ca(n: nowhere) }\n", false)
	add("type parameter twice in struct", "struct dup«T, T» { x: T }\n", false)
	add("type parameter twice in enum", "enum dup«T, T» { Ca(x: T) }\n", false)
	add("type parameter of other struct", "struct dup«T» { x: T }\nstruct dup2 { x: T }\n", false)
	add("type parameter of other enum", "enum dup«T» { Ca(x: T) }\nenum dup2 { Cb(x: T) }\n", false)
	add("type used before declaration", "fn u(x: late) int = x.x\nstruct late { x: int }\n", true)
	add("function used before declaration", "fn u() int = late()\nfn late() int = 1\n", true)
	add("mutually recursive types", "struct ma { b: mb }\nstruct mb { a: ma }\n", true)
	add("struct named with upper case", "struct Dup { x: int }\n", false)
	return it
}

// scopeSchemas: which declaration a name denotes.
func scopeSchemas(rule string) []*Schema {
	var fs []nsrc
	for _, s := range scopes {
		in := func(x string) string { return strings.Replace(s.src, "%s", x, 1) }
		fs = append(fs,
			nsrc{s.name + " shadows variable", "fn @(a: int) { v := a " + in("v := e1() use(v)") + " use(v) }"},
			nsrc{s.name + " shadows parameter", "fn @(v: int) { " + in("v := e1() use(v)") + " use(v) }"},
			nsrc{s.name + " initialiser sees outer", "fn @(v: int) { " + in("v := v + 1 use(v)") + " use(v) }"},
			nsrc{s.name + " uses outer then shadows", "fn @(v: int) { " + in("use(v) v := e1() use(v)") + " use(v) }"},
			nsrc{s.name + " same name after", "fn @() { " + in("v := e1() use(v)") + " v := e2() use(v) }"},
			nsrc{s.name + " shadows function", "fn @() { use(e1()) " + in("e1 := 4 use(e1)") + " use(e1()) }"})
		if !strings.Contains(s.name, "literal") {
			fs = append(fs, nsrc{s.name + " assigns outer", "fn @(v: int) { " + in("v = e1() use(v)") + " use(v) }"},
				nsrc{s.name + " assigns shadow", "fn @(v: int) { " + in("v := 1 v = e1() use(v)") + " use(v) }"})
		}
		for _, o := range scopes {
			y := strings.NewReplacer("r1", "q1", "c1", "d1", "c2", "d2", "c3", "d3", "l1", "k1").Replace(o.src)
			fs = append(fs, nsrc{s.name + " in " + o.name, "fn @(v: int) { use(v) " + in("v := e1() use(v) "+strings.Replace(y, "%s", "v := e2() use(v)", 1)+" use(v)") + " use(v) }"})
		}
	}
	fs = append(fs,
		nsrc{"sibling variables", "fn @() { if eb() { v := e1() use(v) } else { w := e2() use(w) } v := e1() w := e2() use(v - w) }"},
		nsrc{"loop variables", "fn @(i: int) { use(i) for i in 0 .. 2 { use(i) for i in ea() { use(i) } use(i) } use(i) }"},
		nsrc{"case variables", "fn @(n: int) { use(n) match ee() { case Aa(): use(n) case Bb(n): use(n) case Cc(s, m): use(n) use(m) } use(n) }"},
		nsrc{"literal parameter", "fn @(n: int) { f := fn(n: int) int = n + 1 use(f(n)) use(n) }"},
		nsrc{"literal variable", "fn @(n: int) { f := fn(m: int) int { n := m * 2 return n } use(f(n)) use(n) }"},
		nsrc{"nested literal", "fn @(n: int) { f := fn() int { n := n + 1 g := fn() int = n + 10 return g() + n } use(f()) use(n) }"})
	return fnSchemas(rule, "fn run(f: fn() nothing) { f() }\n", fs, 4)
}

func init() {
	Registry["C18"] = func(c *Ctx) {
		c.runSchemas(fnSchemas("deep nesting", "", deepNests(c.Thorough), 4), cgOpts{Semantics: true, Visits: 400})
		c.runSchemas(scopeSchemas("denoted declaration"), cgOpts{Semantics: true})
		h := shdr + "fn run(f: fn() nothing) { f() }\nstruct both { x: int }\nfn both(x: int) int = x\n"
		c.acceptReject("scopes", h, scopeItems())
		c.acceptReject("placement", h, placementItems(c.Thorough))
		c.Min("placement", 2000)
		top := topItems()
		c.Parallel(len(top), func(c *Ctx, i int) {
			t := top[i]
			src := shdr + t.src + "fn main() {}\n"
			if t.ok {
				mustAccept(c, "top-level names", t.name, src)
			} else {
				mustReject(c, "top-level names", t.name, src)
			}
		})
	}
}
