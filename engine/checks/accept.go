package checks

import (
	"fmt"
	"regexp"
	"strings"
)

// item is a one-line declaration the compiler must accept or must diagnose; @ is its name.
type item struct {
	name, src string
	ok        bool
}

var lineRE = regexp.MustCompile(`prog\.clara:(\d+):`)

// diagnosed are the lines diagnostics point at.
func diagnosed(errs []string) map[int]bool {
	r := map[int]bool{}
	for _, e := range errs {
		for _, m := range lineRE.FindAllStringSubmatch(e, -1) {
			n := 0
			fmt.Sscan(m[1], &n)
			r[n] = true
		}
	}
	return r
}

func mustAccept(c *Ctx, rule, name, src string) {
	r := compileSchema(c, src, nil)
	switch {
	case r.Und != "":
		c.Fail(rule, name, r.Where, "undecided: %s", r.Und)
	case r.Panic != "":
		c.Fail(rule, name, r.Where, "the compiler panics: %s", r.Panic)
	case len(r.Errs) > 0:
		c.Fail(rule, name, "", "the compiler rejects the program: %s", strings.Join(r.Errs, "; "))
	default:
		c.Ok(rule)
		c.Sample(rule, name)
	}
}

// acceptReject decides every item: the valid ones together must compile, every other one must be diagnosed on its own.
func (c *Ctx) acceptReject(rule, hdr string, items []item) {
	var yes, no [][]item
	put := func(bs [][]item, it item, per int) [][]item {
		if len(bs) == 0 || len(bs[len(bs)-1]) >= per {
			bs = append(bs, nil)
		}
		bs[len(bs)-1] = append(bs[len(bs)-1], it)
		return bs
	}
	for _, it := range items {
		if it.ok {
			yes = put(yes, it, 40)
		} else {
			no = put(no, it, 60)
		}
	}
	batches := append(yes, no...)
	hl := strings.Count(hdr, "\n")
	c.Parallel(len(batches), func(c *Ctx, i int) {
		b := batches[i]
		var sb strings.Builder
		sb.WriteString(hdr)
		line := map[int]int{}
		for j, it := range b {
			if strings.Contains(it.src, "\n") {
				panic("item on several lines")
			}
			line[j] = hl + j + 1
			sb.WriteString(strings.ReplaceAll(it.src, "@", fmt.Sprintf("t%d", j)) + "\n")
		}
		sb.WriteString("fn main() {}\n")
		r := compileSchema(c, sb.String(), nil)
		d := diagnosed(r.Errs)
		clean := r.Und == "" && r.Panic == ""
		for j, it := range b {
			if clean && it.ok && len(r.Errs) == 0 || clean && !it.ok && d[line[j]] && !r.Linked && r.Out == "" {
				c.Ok(rule)
				c.Sample(rule, it.name)
				continue
			}
			src := hdr + strings.ReplaceAll(it.src, "@", "t0") + "\nfn main() {}\n"
			if it.ok {
				mustAccept(c, rule, it.name, src)
			} else {
				mustReject(c, rule, it.name, src)
			}
		}
	})
}

// ahdr declares the types acceptance is decided over.
const ahdr = `
struct pt { x: int y: string }
struct qt { x: int y: string }
struct box«T» { f: T }
struct pair«A, B» { a: A b: B }
enum en { Aa() Bb(n: int) }
enum en2 { Dd() Ee(n: int) }
enum opt«T» { Som(t: T) Non() }
enum res«T, E» { Ok(t: T) Er(e: E) }
fn use(x: int) nothing
fn gid«T»(x: T) T = x
`

// typeUniverse: every kind of type, and types differing in one constituent of every constructor.
var typeUniverse = []string{"int", "bool", "string", "bytes", "pointer", "pt", "qt", "en", "en2",
	"box«int»", "box«string»", "box«T»", "box«[]int»", "box«box«int»»", "pair«int, string»", "pair«string, int»", "pair«int, T»",
	"opt«int»", "opt«string»", "opt«T»", "opt«U»", "opt«opt«int»»", "res«int, string»", "res«string, string»", "res«int, int»",
	"[]int", "[]string", "[]bool", "[]T", "[]U", "[][]int", "[]pt", "[]opt«int»", "[]fn(int) int",
	"fn() nothing", "fn() int", "fn(int) nothing", "fn(int) int", "fn(int) string", "fn(string) int", "fn(int, int) int", "fn(int, string) int", "fn([]int) int", "fn(int) []int", "fn(fn(int) int) int", "fn(int) fn(int) int", "fn(T) int", "fn(U) int", "fn(int) T", "fn(opt«int») int", "T", "U"}

func tp(s string) string { return "«T, U»" }

// pairContexts need a value of type $B where $A is required.
var pairContexts = []nsrc{
	{"return", `fn @«T, U»(b: $B) $A { return b }`},
	{"result", `fn @«T, U»(b: $B) $A = b`},
	{"return in branch", `fn @«T, U»(a: $A, b: $B, c: bool) $A { if c { return b } return a }`},
	{"assign parameter", `fn @«T, U»(a: $A, b: $B) { a = b }`},
	{"assign variable", `fn @«T, U»(a: $A, b: $B) { v := a v = b }`},
	{"assign field", `fn @«T, U»(s: box«$A», b: $B) { s.f = b }`},
	{"assign nested field", `fn @«T, U»(s: box«box«$A»», b: $B) { s.f.f = b }`},
	{"assign element", `fn @«T, U»(s: []$A, b: $B) { s[0] = b }`},
	{"assign element of element", `fn @«T, U»(s: [][]$A, b: $B) { s[0][1] = b }`},
	{"assign field of element", `fn @«T, U»(s: []box«$A», b: $B) { s[0].f = b }`},
	{"assign captured", `fn @«T, U»(a: $A, b: $B) fn() nothing = fn() nothing { a = b }`},
	{"field value", `fn @«T, U»(s: box«$B») $A = s.f`},
	{"element value", `fn @«T, U»(s: []$B) $A = s[0]`},
	{"loop variable", `fn @«T, U»(s: []$B, a: $A) { for x in s { a = x } }`},
	{"assign loop variable", `fn @«T, U»(s: []$A, b: $B) { for x in s { x = b } }`},
	{"case variable", `fn @«T, U»(o: opt«$B», a: $A) { match o { case Som(t): a = t case Non(): use(1) } }`},
	{"second enum's case variable", `fn @«T, U»(o: res«int, $B», a: $A) { match o { case Ok(t): use(t) case Er(t): a = t } }`},
	{"call result", `fn @«T, U»(f: fn() $B) $A = f()`},
	{"function literal result", `fn @«T, U»(b: $B) { v := fn() $A = b }`},
	{"function literal return", `fn @«T, U»(b: $B) { v := fn() $A { return b } }`},
	{"local declared", `fn @«T, U»(b: $B) $A { v := b return v }`},
	{"ternary result", `fn @«T, U»(c: bool, b: $B) $A = c ? b : b`},
}

var armContexts = []nsrc{
	{"ternary arms", `fn @«T, U»(c: bool, a: $A, b: $B) { v := c ? a : b }`},
	{"array elements", `fn @«T, U»(a: $A, b: $B) { v := [a, b] }`},
	{"third array element", `fn @«T, U»(a: $A, b: $B) { v := [a, a, b] }`},
}

// argContexts pass a value of type $B where the parameter has type $A.
var argContexts = []nsrc{
	{"function value", `fn @«T, U»(f: fn($A) int, b: $B) int = f(b)`},
	{"function value, second argument", `fn @«T, U»(f: fn(int, $A) int, b: $B) int = f(1, b)`},
	{"field function", `fn @«T, U»(f: box«fn($A) int», b: $B) int = f.f(b)`},
	{"result function", `fn @«T, U»(f: fn() fn($A) int, b: $B) int = f()(b)`},
	{"element function", `fn @«T, U»(f: []fn($A) int, b: $B) int = f[0](b)`},
	{"local function", `fn @«T, U»(b: $B) int { g := fn(x: $A) int = 1 return g(b) }`},
	{"receiver", `fn @«T, U»(f: fn($A) int, b: $B) int = b.f()`},
	{"method argument", `fn @«T, U»(f: fn(int, $A) int, n: int, b: $B) int = n.f(b)`},
	{"explicit type argument", `fn @«T, U»(b: $B) { v := gid«$A»(b) }`},
	{"explicit constructor type argument", `fn @«T, U»(b: $B) { v := Box«$A»(b) }`},
	{"explicit enum type argument", `fn @«T, U»(b: $B) { v := Som«$A»(b) }`},
	{"two occurrences", `fn @«T, U»(a: $A, b: $B) { same(a, b) }`},
	{"function literal parameter", `fn @«T, U»(f: fn(fn($A) int) int) int = f(fn(x: $B) int = 1)`},
	{"function literal result", `fn @«T, U»(f: fn(fn() $A) int, b: $B) int = f(fn() $B = b)`},
	{"array and element", `fn @«T, U»(a: []$A, b: $B) { sameElem(a, b) }`},
	{"element and array", `fn @«T, U»(a: $A, b: []$B) { elemSame(a, b) }`},
	{"option and element", `fn @«T, U»(a: opt«$A», b: $B) { sameOpt(a, b) }`},
	{"box and element", `fn @«T, U»(a: box«$A», b: $B) { sameBox(a, b) }`},
	{"function and element", `fn @«T, U»(a: fn($A) int, b: $B) { sameFn(a, b) }`},
	{"function result and element", `fn @«T, U»(a: fn(int) $A, b: $B) { sameRet(a, b) }`},
	{"inferred result", `fn @«T, U»(b: $B) $A = gid(b)`},
	{"inferred from array", `fn @«T, U»(b: []$B) $A = first(b)`},
	{"inferred array result", `fn @«T, U»(b: $B) []$A = single(b)`},
	{"inferred from function", `fn @«T, U»(b: $B, f: fn(int) $B) $A = apply1(f)`},
	{"inferred from constructor", `fn @«T, U»(b: $B) box«$A» = Box(b)`},
	{"inferred from enum constructor", `fn @«T, U»(b: $B) opt«$A» = Som(b)`},
	{"mapped", `fn @«T, U»(o: opt«int», f: fn(int) $B) opt«$A» = mapo(o, f)`},
	{"mapped argument", `fn @«T, U»(o: opt«$B», f: fn($A) int) opt«int» = mapo(o, f)`},
	{"explicit only", `fn @«T, U»() opt«$A» = Non«$B»()`},
}

const argHdr = `fn same«X»(a: X, b: X) {}
fn sameElem«X»(a: []X, b: X) {}
fn elemSame«X»(a: X, b: []X) {}
fn sameOpt«X»(a: opt«X», b: X) {}
fn sameBox«X»(a: box«X», b: X) {}
fn sameFn«X»(a: fn(X) int, b: X) {}
fn sameRet«X»(a: fn(int) X, b: X) {}
fn first«X»(a: []X) X = a[0]
fn single«X»(a: X) []X = [a]
fn apply1«X»(f: fn(int) X) X = f(1)
fn mapo«X, Y»(o: opt«X», f: fn(X) Y) opt«Y» { match o { case Som(t): return Som(f(t)) case Non(): return Non«Y»() } return Non«Y»() }
`

func pairItems(cs []nsrc, types []string, skip func(ctx, a, b string) bool) []item {
	var r []item
	for _, k := range cs {
		for _, a := range types {
			for _, b := range types {
				if skip != nil && skip(k.name, a, b) {
					continue
				}
				src := strings.ReplaceAll(strings.ReplaceAll(k.src, "$A", a), "$B", b)
				r = append(r, item{k.name + ": " + b + " for " + a, src, a == b})
			}
		}
	}
	return r
}
