package checks

import (
	"fmt"
	"strings"
)

// stmtPositions are the places a statement can be nested in; %s is the statement.
var stmtPositions = []nsrc{
	{"body", `%s`},
	{"after statement", `use(1) %s use(2)`},
	{"if body", `if eb() { %s }`},
	{"elseif body", `if eb() { use(1) } elseif eb() { %s } else { use(2) }`},
	{"second elseif body", `if eb() { use(1) } elseif eb() { use(3) } elseif eb() { %s }`},
	{"else body", `if eb() { use(1) } else { %s }`},
	{"while body", `while eb() { %s }`},
	{"range body", `for ii in 0 .. 2 { %s use(ii) }`},
	{"descending body", `for ii in 2 .. 0 { %s use(ii) }`},
	{"array body", `for ii in ea() { %s use(ii) }`},
	{"case body", `match ee() { case Aa(): %s case Bb(nn): use(nn) case Cc(ss, mm): use(mm) }`},
	{"middle case body", `match ee() { case Aa(): use(1) case Bb(nn): %s use(nn) case Cc(ss, mm): use(mm) }`},
	{"last case body", `match ee() { case Aa(): use(1) case Bb(nn): use(2) case Cc(ss, mm): use(mm) %s uses(ss) }`},
	{"if in while", `while eb() { if eb() { %s } use(3) }`},
	{"case in if", `if eb() { match ee() { case Aa(): use(1) case Bb(nn): %s case Cc(ss, mm): use(mm) } }`},
	{"literal body", `use(apply0(fn() int { %s return 1 }))`},
	{"closure body", `kk := e2() use(apply0(fn() int { %s return kk }))`},
	{"literal if body", `use(apply0(fn() int { if eb() { %s } return 1 }))`},
	{"literal loop body", `use(apply(fn(zz: int) int { for ii in 0 .. 2 { %s } return zz }, 4))`},
	{"literal case body", `use(apply(fn(zz: int) int { match ee() { case Aa(): use(1) case Bb(nn): %s case Cc(ss, mm): use(mm) } return zz }, 4))`},
	{"literal in literal", `use(apply0(fn() int { return apply0(fn() int { %s return 2 }) }))`},
	{"literal in condition", `if apply0(fn() int { %s return 2 }) > 3 { use(1) }`},
	{"literal in array", `ff := [twice, fn(zz: int) int { %s return zz }] use(ff[0](1))`},
	{"literal declared", `ff := fn(zz: int) int { %s return zz } use(ff(1))`},
	{"literal assigned", `ff := twice ff = fn(zz: int) int { %s return zz } use(ff(1))`},
	{"literal constructor argument", `usep(Pt(1, es(), fn(zz: int) int { %s return zz }, eq()))`},
	{"literal field assignment", `pq := ep() pq.f = fn(zz: int) int { %s return zz }`},
	{"literal in ternary", `ff := eb() ? twice : fn(zz: int) int { %s return zz } use(ff(1))`},
	{"literal in range", `for ii in apply0(fn() int { %s return 0 }) .. 2 { use(ii) }`},
	{"literal in match", `match mke(apply0(fn() int { %s return 0 })) { case Aa(): use(1) case Bb(nn): use(nn) case Cc(ss, mm): use(mm) }`},
}

// stmtConstructs use x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, ev: en.
var stmtConstructs = []nsrc{
	{"call", `use(x)`},
	{"declaration", `q := x + 1 use(q)`},
	{"field assignment", `pp.x = x`},
	{"element assignment", `ar[1] = x`},
	{"range", `for q in 0 .. x { use(q) }`},
	{"descending range", `for q in x .. 0 { use(q) }`},
	{"array loop", `for q in ar { use(q + x) }`},
	{"match", `match ev { case Aa(): use(x) case Bb(q): use(q) case Cc(r, q): uses(r) use(q) }`},
	{"match of call", `match mke(x) { case Cc(r, q): use(q) case Bb(q): use(q + x) case Aa(): use(3) }`},
	{"if", `if b { use(x) } elseif eb() { use(2) } else { use(3) }`},
	{"while", `while eb() { use(x) }`},
	{"array literal", `q := [x, e1()] use(q[0])`},
	{"closure", `q := fn(w: int) int = w + x use(q(1))`},
	{"literal", `q := fn(w: int) int = w use(q(1))`},
	{"function value call", `g(x)`},
	{"method", `x.use()`},
}

func stmtNesting(rule string) []*Schema {
	var fs []nsrc
	for _, k := range stmtConstructs {
		for _, p := range stmtPositions {
			fs = append(fs, nsrc{k.name + " in " + p.name, "fn @(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, ev: en) { " + strings.ReplaceAll(p.src, "%s", k.src) + " }"})
		}
	}
	return fnSchemas(rule, "", fs, 4)
}

// positionNesting: every position inside every position, and each position inside itself to a depth.
func positionNesting(rule string, thorough bool) []*Schema {
	var fs []nsrc
	const head = "fn @(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, ev: en) { "
	loop := map[string]bool{"while body": true, "range body": true, "descending body": true, "array body": true, "if in while": true, "literal loop body": true}
	inner := []nsrc{{"declaration", `q := es() use(x) uses(q)`}, {"closure", `q := fn(w: int) int = w + x use(q(1))`}, {"match", `match mke(x) { case Cc(r, q): use(q) uses(r) case Bb(q): use(q + x) case Aa(): use(3) }`}, {"array loop", `for q in ar { use(q + x) }`}}
	put := func(p, s string) string { return strings.ReplaceAll(p, "%s", s) }
	for i, p := range stmtPositions[1:] {
		for j, q := range stmtPositions[1:] {
			for k, in := range inner {
				if !thorough && k != (i+j)%len(inner) {
					continue
				}
				if loop[p.name] && loop[q.name] && (in.name == "array loop" || in.name == "match") {
					continue
				}
				fs = append(fs, nsrc{in.name + " in " + q.name + " in " + p.name, head + put(p.src, put(q.src, in.src)) + " }"})
			}
		}
		max := 5
		if loop[p.name] {
			max = 3
		}
		if p.name == "if in while" {
			max = 2
		}
		src := inner[0].src
		for d := 1; d <= max; d++ {
			// a variable of this level, live across the nested statement
			src = fmt.Sprintf("v%d := es() use(%d) ", d, d) + put(p.src, src) + fmt.Sprintf(" use(%d) uses(v%d)", d+10, d)
			if d >= 3 {
				fs = append(fs, nsrc{fmt.Sprintf("%s repeated %d times", p.name, d), head + src + " }"})
			}
		}
	}
	return fnSchemas(rule, "", fs, 3)
}

// badExprs must be diagnosed wherever they occur.
var badExprs = []nsrc{{"literal out of range", "0x7FFFFFFFFFFFFFFF"}, {"undeclared name", "nowhere"}, {"mismatched operands", `(1 + "s")`}, {"undeclared function", "nofn(1)"}, {"missing field", "pp.nofield"}, {"bad argument", `id("s")`}}

func badNesting(c *Ctx, rule string) {
	type bad struct{ name, src string }
	var bs []bad
	head := "fn @(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, lim: int) { e2lim := lim "
	for _, e := range badExprs {
		for _, p := range intPositions {
			src := strings.ReplaceAll(strings.ReplaceAll(p.src, "%%d", "%d"), "%s", e.src)
			bs = append(bs, bad{e.name + " in " + p.name, shdr + strings.ReplaceAll(head, "@", "t") + src + " }\nfn main() {}\n"})
		}
		for _, p := range stmtPositions {
			src := strings.ReplaceAll(p.src, "%s", "use("+e.src+")")
			bs = append(bs, bad{e.name + " in " + p.name, shdr + strings.ReplaceAll(head, "@", "t") + src + " }\nfn main() {}\n"})
		}
		bs = append(bs, bad{e.name + " as result", shdr + fmt.Sprintf("fn t(pp: pt) int = %s\nfn main() {}\n", e.src)},
			bad{e.name + " returned", shdr + fmt.Sprintf("fn t(pp: pt) int { return %s }\nfn main() {}\n", e.src)},
			bad{e.name + " in literal result", shdr + fmt.Sprintf("fn t(pp: pt) int = apply0(fn() int = %s)\nfn main() {}\n", e.src)})
	}
	c.Parallel(len(bs), func(c *Ctx, i int) { mustReject(c, rule, bs[i].name, bs[i].src) })
}

func init() {
	Registry["C20"] = func(c *Ctx) {
		o := cgOpts{Semantics: true}
		c.runSchemas(nestingSchemas("expression", intConstructs), o)
		c.runSchemas(stmtNesting("statement"), o)
		o.Visits = 40
		c.runSchemas(positionNesting("nested position", c.Thorough), o)
		c.Min("nested position", 900)
		c.runSchemas(grammarSchemas("composition", 2, 1, "statement"), cgOpts{Semantics: true})
		c.Min("composition", 3000)
		so := cgOpts{Semantics: true, Visits: 400}
		c.runSchemas(fnSchemas("large body", "", longBodies(c.Thorough), 3), so)
		c.runSchemas(fnSchemas("deep nesting", "", deepNests(c.Thorough), 4), so)
		c.Min("large body", 130)
		c.Min("deep nesting", 80)
		badNesting(c, "diagnosed")
		c.Min("expression", 3000)
		c.Min("statement", 450)
		c.Min("diagnosed", 500)
	}
}
