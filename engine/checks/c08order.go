package checks

import "strings"

// orderDecls depend on one another in every way types can, so whatever their order some are used before they are declared.
var orderDecls = []string{
	"struct da«T» { b: db«T» n: int k: []da«[]T» }\n",
	"struct db«T» { c: []dc«T, int» f: fn(T) dd«T» v: T }\n",
	"struct dc«U, V» { d: dd«U» up: da«U» w: V g: fn(dc«V, U») nothing }\n",
	"enum dd«T» { Dx(t: T, a: da«T») Dy() Dz(m: db«dc«T, string»») }\n",
	"struct de { a: da«int» s: db«string» o: []dd«bool» }\n",
}

func orderItems() []item {
	var it []item
	sel := []struct{ of, path, typ string }{
		{"da«int»", "b.v", "int"}, {"da«string»", "b.v", "string"}, {"da«int»", "b.c[0].w", "int"}, {"da«string»", "b.c[0].up.b.v", "string"}, {"da«bool»", "b.c[0].up.b.c[1].up.n", "int"}, {"da«int»", "k[0].b.v", "[]int"}, {"da«int»", "k[0].k[0].b.v[0]", "[]int"},
		{"db«int»", "f(1)", "dd«int»"}, {"db«string»", "c[0].d", "dd«string»"}, {"db«string»", "c[0].up.b.f", "fn(string) dd«string»"}, {"dc«string, bool»", "w", "bool"}, {"dc«string, bool»", "d", "dd«string»"}, {"dc«string, bool»", "up.b.c", "[]dc«string, int»"}, {"dc«string, bool»", "g", "fn(dc«bool, string») nothing"},
		{"de", "a.b.v", "int"}, {"de", "s.v", "string"}, {"de", "s.c[0].up.b.c[0].d", "dd«string»"}, {"de", "o[0]", "dd«bool»"}, {"de", "a.k", "[]da«[]int»"}, {"da«T»", "b.v", "T"}, {"da«T»", "b.c[0].up.k[0].b.v[0]", "T"}, {"da«dd«T»»", "b.v", "dd«T»"}, {"da«da«int»»", "b.v.b.v", "int"},
	}
	all := []string{"int", "string", "bool", "T", "[]int", "dd«int»", "dd«T»", "dd«string»"}
	for _, s := range sel {
		it = append(it, item{s.of + " ." + s.path + " as " + s.typ, "fn @«T»(x: " + s.of + ") " + s.typ + " = x." + s.path, true})
		for _, t := range all {
			if t != s.typ {
				it = append(it, item{s.of + " ." + s.path + " as " + t, "fn @«T»(x: " + s.of + ") " + t + " = x." + s.path, false})
			}
		}
	}
	arm := func(of, cons, v, typ string, ok bool) {
		cs := ""
		for _, k := range []nsrc{{"Dx", "t, a"}, {"Dy", ""}, {"Dz", "m"}} {
			b := "return q"
			if k.name == cons {
				b = "return " + v
			}
			cs += " case " + k.name + "(" + k.src + "): " + b
		}
		it = append(it, item{"case of " + of + " " + v + " as " + typ, "fn @«T»(x: " + of + ", q: " + typ + ") " + typ + " { match x {" + cs + " } }", ok})
	}
	for _, a := range []string{"int", "string", "T"} {
		for _, b := range []string{"int", "string", "T"} {
			arm("dd«"+a+"»", "Dx", "t", b, a == b)
			arm("dd«"+a+"»", "Dx", "a.b.v", b, a == b)
			arm("dd«"+a+"»", "Dx", "a.b.c[0].up.b.v", b, a == b)
			arm("dd«"+a+"»", "Dz", "m.v.w", b, b == "string")
			arm("dd«"+a+"»", "Dz", "m.v.up.b.v", b, a == b)
		}
	}
	for _, a := range []string{"int", "string", "[]int"} {
		for _, b := range []string{"int", "string", "[]int"} {
			it = append(it, item{"built of " + a + " as " + b, "fn @(x: da«" + a + "», v: " + a + ") dd«" + b + "» = Dx(v, x)", a == b},
				item{"built of " + a + " and " + b, "fn @(x: da«" + a + "», v: " + b + ") { z := Dx(v, x) }", a == b},
				item{"field set of " + a + " to " + b, "fn @(x: da«" + a + "», v: " + b + ") { x.b.v = v }", a == b},
				item{"deep field set of " + a + " to " + b, "fn @(x: da«" + a + "», v: dd«" + b + "») { x.b.c[0].up.b.c[1].d = v }", a == b})
		}
	}
	return it
}

// declarationOrder: what is accepted does not depend on the order of declarations.
func declarationOrder(c *Ctx, rule string) {
	its := orderItems()
	var perms [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == len(orderDecls) {
			perms = append(perms, append([]int{}, p...))
			return
		}
		for i := range orderDecls {
			if used&(1<<uint(i)) == 0 {
				rec(append(p, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	c.Parallel(len(perms), func(c *Ctx, pi int) {
		p := perms[pi]
		h := ahdr
		nm := ""
		for _, i := range p {
			h += orderDecls[i]
			nm += strings.Fields(strings.NewReplacer("«", " ", "»", " ").Replace(orderDecls[i]))[1] + " "
		}
		var sub []item
		for k, t := range its {
			if t.ok || c.Thorough || (k+pi)%24 == 0 {
				t.name += " with " + nm
				sub = append(sub, t)
			}
		}
		c.acceptReject(rule, h, sub)
	})
}
