package checks

// assignTargets: may the expression be assigned an int?
var assignTargets = []struct {
	src string
	ok  bool
}{
	{"x", true}, {"v", true}, {"p.x", true}, {"b.f", true}, {"bb.f.f", true}, {"a[0]", true}, {"aa[0][1]", true}, {"bs[0].f", true}, {"fp().x", true}, {"fa()[0]", true}, {"id(p).x", true},
	{"x + 1", false}, {"1", false}, {"-1", false}, {`"s"`, false}, {"true", false}, {"fi()", false}, {"use(1)", false}, {"gid(x)", false}, {"(x + 1)", false}, {"-x", false}, {"~x", false}, {"not c", false},
	{"a.length", false}, {"s.length", false}, {"aa[0].length", false}, {"fa().length", false}, {"fs", false}, {"nofn", false}, {"main", false}, {"use", false}, {"Pt", false}, {"Aa", false}, {"pt", false}, {"int", false}, {"en", false}, {"T", false},
	{"p", false}, {"a", false}, {"s", false}, {"c", false}, {"[1]", false}, {"c ? x : v", false}, {"(c ? x : v)", false}, {"fn() int = 1", false}, {"p.nofield", false}, {"p.y", false}, {"x.f", false}, {"a.f", false}, {"pt.x", false}, {"nowhere", false}, {"type(int)", false},
}

func init() {
	Registry["C08"] = func(c *Ctx) {
		h := ahdr + argHdr
		c.acceptReject("assigned and returned types", h, pairItems(pairContexts, typeUniverse, nil))
		c.acceptReject("element types", h, pairItems(armContexts[1:], typeUniverse, nil))
		var it []item
		add := func(name, src string, ok bool) { it = append(it, item{name, src, ok}) }
		for _, a := range typeUniverse {
			p := "fn @«T, U»(a: " + a + ", b: bool) "
			b := a == "bool"
			add("if "+a, p+"{ if a { } }", b)
			add("elseif "+a, p+"{ if b { } elseif a { } }", b)
			add("second elseif "+a, p+"{ if b { } elseif b { } elseif a { } else { } }", b)
			add("while "+a, p+"{ while a { } }", b)
			add("nested if "+a, p+"{ while b { if a { } } }", b)
			add("literal if "+a, p+"{ v := fn() nothing { if a { } } }", b)
			arr := a[0] == '['
			add("for in "+a, p+"{ for i in a { } }", arr)
			add("for in call "+a, "fn @«T, U»(a: fn() "+a+") { for i in a() { } }", arr)
			add("match "+a, p+"{ match a { case Aa(): use(1) case Bb(n): use(n) } }", a == "en")
			add("index of "+a, p+"{ v := a[0] }", arr)
			add("index by "+a, "fn @«T, U»(a: "+a+", r: []int) { v := r[a] }", a == "int")
			add("assigned index by "+a, "fn @«T, U»(a: "+a+", r: []int) { r[a] = 1 }", a == "int")
			add("assigned index of "+a, p+"{ v := a[0] a[0] = v }", arr)
			add("inner index by "+a, "fn @«T, U»(a: "+a+", r: [][]int) { v := r[a][0] }", a == "int")
			add("outer index by "+a, "fn @«T, U»(a: "+a+", r: [][]int) { v := r[0][a] }", a == "int")
			add("length of "+a, p+"{ v := a.length }", arr || a == "string")
			add("length of "+a+" as int", p+"int = a.length", arr || a == "string")
			add("length of "+a+" as string", p+"string = a.length", false)
			add("assigned length of "+a, p+"{ a.length = 1 }", false)
			add("deref of "+a, p+"{ v := a.deref }", a == "pointer")
			add("deref of "+a+" as pointer", p+"pointer = a.deref", a == "pointer")
			add("deref of "+a+" as int", p+"int = a.deref", false)
			for _, f := range []struct{ n, has string }{{"x", " pt qt "}, {"y", " pt qt "}, {"a", " pair«int, string» pair«string, int» pair«int, T» "}, {"f", " box«int» box«string» box«T» box«[]int» box«box«int»» "}, {"nofield", ""}, {"T", ""}, {"n", ""}, {"t", ""}, {"_0", ""}, {"tag", ""}, {"Aa", ""}} {
				has := contains(f.has, " "+a+" ")
				add("field "+f.n+" of "+a, p+"{ v := a."+f.n+" }", has)
				add("assigned field "+f.n+" of "+a, p+"{ v := a."+f.n+" a."+f.n+" = v }", has)
				add("field "+f.n+" of element "+a, "fn @«T, U»(a: []"+a+") { v := a[0]."+f.n+" }", has)
				add("field "+f.n+" of call "+a, "fn @«T, U»(a: fn() "+a+") { v := a()."+f.n+" }", has)
			}
			add("return without value in "+a, "fn @«T, U»() "+a+" { return }", false)
			add("return of value in nothing "+a, p+"{ return a }", false)
			add("return of value in nothing literal "+a, p+"{ v := fn() nothing { return a } }", false)
			add("nothing result "+a, "fn @«T, U»(a: "+a+") nothing = a", false)
			add("result nothing for "+a, "fn @«T, U»() "+a+" = use(1)", false)
			add("return nothing for "+a, "fn @«T, U»() "+a+" { return use(1) }", false)
			add("assigned nothing for "+a, p+"{ a = use(1) }", false)
		}
		for _, f := range []struct{ f, t string }{{"x", "int"}, {"y", "string"}} {
			for _, a := range typeUniverse {
				add("field "+f.f+" as "+a, "fn @«T, U»(p: pt) "+a+" = p."+f.f, a == f.t)
				add("assigned field "+f.f+" from "+a, "fn @«T, U»(p: pt, a: "+a+") { p."+f.f+" = a }", a == f.t)
			}
		}
		for _, a := range typeUniverse {
			add("first of pair as "+a, "fn @«T, U»(p: pair«string, int») "+a+" = p.a", a == "string")
			add("second of pair as "+a, "fn @«T, U»(p: pair«string, int») "+a+" = p.b", a == "int")
		}
		for _, t := range []struct {
			n, src string
			ok     bool
		}{
			{"empty return", "{ return }", true}, {"nested empty return", "{ if true { return } use(1) }", true}, {"return of nothing call", "{ return use(1) }", true}, {"if literal", "{ if true { } }", true}, {"if int literal", "{ if 1 { } }", false}, {"while int literal", "{ while 0 { } }", false}, {"if string literal", `{ if "s" { } }`, false}, {"if call", "{ if use(1) { } }", false}, {"while nothing", "{ while use(1) { } }", false}, {"for in int literal", "{ for i in 5 { } }", false}, {"for in string literal", `{ for i in "abc" { } }`, false}, {"for in array literal", "{ for i in [1] { use(i) } }", true}, {"for in range", "{ for i in 1 .. 4 { use(i) } }", true}, {"for in nothing", "{ for i in use(1) { } }", false}, {"match int literal", "{ match 1 { case Aa(): use(1) case Bb(n): use(n) } }", false}, {"index array literal", "{ v := [1][0] use(v) }", true}, {"index string literal", `{ v := "s"[0] }`, false}, {"index by string literal", `{ v := [1]["s"] }`, false}, {"index by bool", "{ v := [1][true] }", false}, {"index of function", "{ v := use[0] }", false}, {"field of function", "{ v := use.x }", false}, {"length of function", "{ v := use.length }", false}, {"length of literal", `{ v := "s".length use(v) }`, true}, {"empty array", "{ v := [] }", false}, {"mixed array", `{ v := [1, "s"] }`, false}, {"mixed later", `{ v := [1, 2, 3, "s"] }`, false}, {"nested mixed", `{ v := [[1], ["s"]] }`, false}, {"array of functions", "{ v := [fn(x: int) int = x, fn(y: int) int = y + 1] use(v[1](2)) }", true}, {"array of different functions", `{ v := [fn(x: int) int = x, fn(y: string) int = 1] }`, false}, {"type as value", "{ v := pt }", false}, {"int as value", "{ v := int }", false}, {"type expression as value", "{ v := type(int) }", false}, {"declared literal", "{ 1 := 2 }", false}, {"declared call", "{ use(1) := 2 }", false}, {"declared field", "{ p := Pt(1, \"s\") p.x := 2 }", false}, {"declared element", "{ p := [1] p[0] := 2 }", false},
			{"array literal as int", "{ v := 1 v = [1] }", false}, {"function as int", "{ v := 1 v = main }", false}, {"literal string to int", `{ v := 1 v = "s" }`, false}, {"literal bool to int", `{ v := 1 v = true }`, false}, {"literal int to string", `{ v := "a" v = 1 }`, false}, {"literal int to bool", `{ v := false v = 0 }`, false}, {"negative to string", `{ v := "a" v = -1 }`, false}, {"constructor to int", `{ v := 1 v = Pt(1, "s") }`, false}, {"enum to struct", `{ v := Pt(1, "s") v = Aa() }`, false}, {"enum to other enum", `{ v := Dd() v = Aa() }`, false}, {"same enum", `{ v := Aa() v = Bb(1) }`, true}, {"comparison to int", `{ v := 1 v = 1 < 2 }`, false}, {"arithmetic to bool", `{ v := true v = 1 + 2 }`, false},
		} {
			add(t.n, "fn @() "+t.src, t.ok)
			add("in literal: "+t.n, "fn @() { w := fn() nothing "+t.src+" }", t.ok)
			add("in loop: "+t.n, "fn @() { while true "+t.src+" }", t.ok)
			add("in case: "+t.n, "fn @(e: en) { match e { case Aa(): if true "+t.src+" case Bb(n): use(n) } }", t.ok)
		}
		for _, t := range assignTargets {
			add("assign to "+t.src, "fn @«T»(x: int, p: pt, b: box«int», a: []int, s: string, c: bool) { v := 1 bb := Box(b) aa := [a] bs := [b] "+t.src+" = 2 }", t.ok)
			add("assign in literal to "+t.src, "fn @«T»(x: int, p: pt, b: box«int», a: []int) { w := fn(s: string, c: bool) nothing { v := 1 bb := Box(b) aa := [a] bs := [b] "+t.src+" = 2 } }", t.ok)
		}
		add("assign case variable", "fn @(e: en) { match e { case Aa(): use(1) case Bb(n): n = 3 } }", true)
		add("assign string to case variable", "fn @(e: en) { match e { case Aa(): use(1) case Bb(n): n = \"s\" } }", false)
		add("assign loop variable", "fn @() { for i in 0 .. 3 { i = 3 } }", true)
		add("assign string to loop variable", "fn @() { for i in 0 .. 3 { i = \"s\" } }", false)
		add("assign captured", "fn @() { v := 1 w := fn() nothing { v = 2 } }", true)
		add("assign string to captured", "fn @() { v := 1 w := fn() nothing { v = \"s\" } }", false)
		c.acceptReject("statements", h+"fn fi() int = 1\nfn fp() pt = Pt(1, \"s\")\nfn fa() []int = [1]\nfn fs(x: int) int = x\nfn id(p: pt) pt = p\n", it)
		c.acceptReject("deep types", h, append(deepTypes(c.Thorough), fnTypeItems()...))
		c.Min("deep types", 4000)
		declarationOrder(c, "declaration order")
		c.Min("declaration order", 4000)
	}
}
