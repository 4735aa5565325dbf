package checks

import (
	"fmt"
	"strings"
)

const matchHdr = `
enum e1 { P0(a: int) }
enum e2 { Q0() Q1(a: int) }
enum e3 { R0() R1(a: int) R2(a: string, b: int) }
enum e4 { S0() S1(a: int) S2(a: string, b: int) S3(a: int, b: string, c: bool) }
enum o«T» { O0(t: T) O1() }
enum r2«T, E» { X0(t: T) X1(e: E) X2(t: T, e: E) }
struct pt { x: int y: string }
fn use(x: int) nothing
fn uses(x: string) nothing
fn useb(x: bool) nothing
fn plain(x: int) int = x
`

type econs struct {
	name  string
	types []string
}

var matchEnums = []struct {
	t  string
	cs []econs
}{
	{"e1", []econs{{"P0", []string{"int"}}}},
	{"e2", []econs{{"Q0", nil}, {"Q1", []string{"int"}}}},
	{"e3", []econs{{"R0", nil}, {"R1", []string{"int"}}, {"R2", []string{"string", "int"}}}},
	{"e4", []econs{{"S0", nil}, {"S1", []string{"int"}}, {"S2", []string{"string", "int"}}, {"S3", []string{"int", "string", "bool"}}}},
	{"o«int»", []econs{{"O0", []string{"int"}}, {"O1", nil}}},
	{"o«string»", []econs{{"O0", []string{"string"}}, {"O1", nil}}},
	{"r2«int, string»", []econs{{"X0", []string{"int"}}, {"X1", []string{"string"}}, {"X2", []string{"int", "string"}}}},
}

func caseOf(name string, n int, body string) string {
	var vs []string
	for i := 0; i < n; i++ {
		vs = append(vs, fmt.Sprintf("v%d", i))
	}
	return "case " + name + "(" + strings.Join(vs, ", ") + "): " + body + " "
}

func matchAcceptance(c *Ctx, rule string) {
	var it []item
	add := func(name, src string, ok bool) { it = append(it, item{name, src, ok}) }
	uses := map[string]string{"int": "use", "string": "uses", "bool": "useb"}
	for _, e := range matchEnums {
		k := len(e.cs)
		wrap := func(name, cases string, ok bool) {
			add(e.t+": "+name, "fn @(e: "+e.t+") { match e { "+cases+"} }", ok)
			add(e.t+" from call: "+name, "fn @(f: fn() "+e.t+") { match f() { "+cases+"} }", ok)
			add(e.t+" nested: "+name, "fn @(e: "+e.t+") { while true { match e { "+cases+"} } }", ok)
			add(e.t+" in literal: "+name, "fn @(e: "+e.t+") { w := fn() nothing { match e { "+cases+"} } }", ok)
		}
		// every sequence of up to k+1 constructors
		n := 1
		for l := 0; l <= k+1; l++ {
			if l > 4 {
				break
			}
			for s := 0; s < n; s++ {
				x, seen, dup := s, map[int]bool{}, false
				var b strings.Builder
				for i := 0; i < l; i++ {
					j := x % k
					x /= k
					dup = dup || seen[j]
					seen[j] = true
					b.WriteString(caseOf(e.cs[j].name, len(e.cs[j].types), "use(1)"))
				}
				wrap("cases "+b.String(), b.String(), l > 0 && !dup && len(seen) == k)
			}
			n *= k
		}
		all := func(skip int) string {
			var b strings.Builder
			for j, cs := range e.cs {
				if j != skip {
					b.WriteString(caseOf(cs.name, len(cs.types), "use(1)"))
				}
			}
			return b.String()
		}
		for j, cs := range e.cs {
			for m := 0; m <= 5; m++ {
				wrap(fmt.Sprintf("%s with %d variables", cs.name, m), all(j)+caseOf(cs.name, m, "use(1)"), m == len(cs.types))
				wrap(fmt.Sprintf("first %s with %d variables", cs.name, m), caseOf(cs.name, m, "use(1)")+all(j), m == len(cs.types))
			}
			for i, t := range cs.types {
				for ut, u := range uses {
					wrap(fmt.Sprintf("variable %d of %s used as %s", i, cs.name, ut), all(j)+caseOf(cs.name, len(cs.types), fmt.Sprintf("%s(v%d)", u, i)), ut == t)
				}
			}
			if len(cs.types) == 2 {
				wrap("repeated variable", all(j)+"case "+cs.name+"(v, v): use(1) ", false)
			}
			wrap("variable of another case", all(j)+caseOf(cs.name, len(cs.types), "use(w9)"), false)
			wrap("case replaced by foreign constructor", all(j)+"case Z9(): use(1) ", false)
			wrap("case replaced by struct constructor", all(j)+"case Pt(a, b): use(1) ", false)
			wrap("case replaced by function", all(j)+"case plain(a): use(1) ", false)
			wrap("case replaced by type", all(j)+"case pt(): use(1) ", false)
			wrap("case replaced by local", all(j)+"case e(): use(1) ", false)
			for _, o := range matchEnums {
				if strings.Split(o.t, "«")[0] != strings.Split(e.t, "«")[0] {
					wrap("case of another enum "+o.t, all(j)+caseOf(o.cs[0].name, len(o.cs[0].types), "use(1)"), false)
					wrap("additional case of another enum "+o.t, all(-1)+caseOf(o.cs[0].name, len(o.cs[0].types), "use(1)"), false)
				}
			}
		}
	}
	add("case variable outside", "fn @(e: e2) { match e { case Q0(): use(1) case Q1(n): use(n) } use(n) }", false)
	add("case variable in other case", "fn @(e: e2) { match e { case Q1(n): use(n) case Q0(): use(n) } }", false)
	add("case variable shadows", "fn @(e: e2, n: string) { match e { case Q0(): uses(n) case Q1(n): use(n) } uses(n) }", true)
	add("empty match", "fn @(e: e2) { match e { } }", false)
	add("generic parameter", "fn @«T»(e: o«T», t: T) T { match e { case O0(x): return x case O1(): return t } return t }", true)
	add("generic parameter misused", "fn @«T»(e: o«T», t: T) { match e { case O0(x): use(x) case O1(): use(1) } }", false)
	add("generic of array", "fn @(e: o«[]int») { match e { case O0(x): use(x[0]) case O1(): use(1) } }", true)
	add("generic of generic", "fn @(e: o«o«int»») { match e { case O0(x): match x { case O0(y): use(y) case O1(): use(2) } case O1(): use(1) } }", true)
	add("generic of generic misused", "fn @(e: o«o«string»») { match e { case O0(x): match x { case O0(y): use(y) case O1(): use(2) } case O1(): use(1) } }", false)
	c.acceptReject(rule, matchHdr+"fn w() {}\n", it)
}
