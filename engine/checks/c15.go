package checks

import (
	"fmt"
	"strings"
)

// rform is a statement with whether every path through it returns; R stands for a return.
type rform struct {
	src string
	ret bool
}

func blockOf(ss ...rform) rform {
	var b []string
	r := false
	for _, s := range ss {
		b = append(b, s.src)
		r = s.ret // code after a return is still required to return, conservatively
	}
	return rform{strings.Join(b, " "), r}
}

// wrapAll nests blocks in every statement form.
func wrapAll(bs []rform) []rform {
	var r []rform
	for i, a := range bs {
		r = append(r, rform{"if eb() { " + a.src + " }", false},
			rform{"while eb() { " + a.src + " }", false},
			rform{"for i$ in 0 .. 2 { " + a.src + " }", false},
			rform{"for i$ in ea() { " + a.src + " }", false},
			rform{"if eb() { R } elseif eb() { " + a.src + " }", false})
		for j, b := range bs {
			r = append(r, rform{"if eb() { " + a.src + " } else { " + b.src + " }", a.ret && b.ret})
			k := bs[(i+j)%len(bs)]
			r = append(r, rform{"if eb() { " + a.src + " } elseif eb() { " + b.src + " } else { " + k.src + " }", a.ret && b.ret && k.ret},
				rform{"if eb() { " + a.src + " } elseif eb() { " + b.src + " } elseif eb() { R } else { " + k.src + " }", a.ret && b.ret && k.ret},
				rform{"match ee() { case Aa(): " + a.src + " case Bb(n$): " + b.src + " case Cc(s$, m$): " + k.src + " }", a.ret && b.ret && k.ret})
		}
	}
	return r
}

func returnForms() []rform {
	use, ret := rform{"use(1)", false}, rform{"R", true}
	b0 := []rform{{"", false}, use, ret, blockOf(use, ret), blockOf(ret, use)}
	s1 := wrapAll(b0)
	all := append([]rform{}, b0...)
	for _, s := range s1 {
		all = append(all, s, blockOf(s, use), blockOf(use, s), blockOf(s, ret))
	}
	// second level over representative first level forms
	reps := []rform{ret, use,
		{"if eb() { R }", false}, {"if eb() { R } else { use(2) }", false}, {"if eb() { use(2) } else { R }", false}, {"if eb() { R } else { R }", true}, {"if eb() { R } elseif eb() { R } else { R }", true}, {"if eb() { R } elseif eb() { use(3) } else { R }", false}, {"while eb() { R }", false},
		{"match ee() { case Aa(): R case Bb(n$): R case Cc(s$, m$): R }", true}, {"match ee() { case Aa(): R case Bb(n$): use(2) case Cc(s$, m$): R }", false}, {"match ee() { case Aa(): use(2) case Bb(n$): R case Cc(s$, m$): R }", false}, {"match ee() { case Aa(): R case Bb(n$): R case Cc(s$, m$): use(m$) }", false},
		{"if eb() { R } else { R } use(4)", false}, {"for i$ in 0 .. 2 { R }", false}}
	for _, s := range wrapAll(reps) {
		all = append(all, s)
	}
	return append(all, longReturns()...)
}

func numbered(src string) string {
	for i := 0; strings.Contains(src, "$"); i++ {
		// names of one case stay together: they are distinct letters
		src = strings.Replace(src, "$", fmt.Sprint(i), 1)
	}
	return src
}

func init() {
	Registry["C15"] = func(c *Ctx) {
		var it []item
		var run []nsrc
		for i, f := range returnForms() {
			src := strings.ReplaceAll(f.src, "m$)", "m9$)")
			src = strings.ReplaceAll(src, "use(m9$)", "use(1)")
			v := numbered(strings.ReplaceAll(src, "R", "return e1()"))
			n := numbered(strings.ReplaceAll(src, "R", "return"))
			// "match" and friends keep their R-free spelling, so only returns were replaced
			it = append(it, item{"result: " + f.src, "fn @() int { " + v + " }", f.ret})
			if i%3 == 0 {
				it = append(it, item{"literal result: " + f.src, "fn @() { w := fn() int { " + v + " } use(w()) }", f.ret},
					item{"closure result: " + f.src, "fn @(k: int) { w := fn(q: int) int { use(k) " + v + " } use(w(1)) }", f.ret},
					item{"generic result: " + f.src, "fn @«T»(x: T) int { " + v + " }", f.ret},
					item{"no result: " + f.src, "fn @() { " + n + " }", true})
			}
			if f.ret {
				run = append(run, nsrc{"result: " + f.src, "fn @() int { " + v + " }"})
				if i%4 == 0 {
					run = append(run, nsrc{"literal result: " + f.src, "fn @() { w := fn() int { " + v + " } use(w()) }"},
						nsrc{"closure result: " + f.src, "fn @(k: int) { w := fn(q: int) int { use(k) " + v + " } use(w(1)) }"})
				}
			}
			if i%2 == 0 {
				run = append(run, nsrc{"no result: " + f.src, "fn @() { " + n + " }"})
			}
			if i%5 == 0 {
				run = append(run, nsrc{"literal without result: " + f.src, "fn @() { w := fn() nothing { " + n + " } w() }"},
					nsrc{"called from C: " + f.src, "#[ExtRet] fn @() { " + n + " }"})
			}
		}
		for _, t := range []string{"int", "string", "bool", "pt", "[]int", "en", "opt«int»", "fn(int) int", "T", "[]T"} {
			it = append(it, item{"empty function with result " + t, "fn @«T»() " + t + " { }", false},
				item{"no return with result " + t, "fn @«T»() " + t + " { use(1) }", false},
				item{"return with result " + t, "fn @«T»(x: " + t + ") " + t + " { return x }", true},
				item{"conditional return with result " + t, "fn @«T»(x: " + t + ") " + t + " { if eb() { return x } }", false})
		}
		run = append(run, nsrc{"expression function", "fn @(x: int) int = x + 1"}, nsrc{"expression function without result", "fn @(x: int) nothing = use(x)"}, nsrc{"empty function", "fn @() { }"},
			nsrc{"called from C, with result", "#[ExtRet] fn @(x: int) int { if eb() { return x } return 2 }"}, nsrc{"called from C, expression", "#[ExtRet] fn @(x: int) int = x"}, nsrc{"called from C, empty", "#[ExtRet] fn @() { }"})
		c.acceptReject("accepted only if every path returns", shdr, it)
		c.runSchemas(fnSchemas("leaves the function", "", run, 6), cgOpts{Semantics: true})
	}
}
