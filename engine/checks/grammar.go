package checks

import (
	"fmt"
	"strings"
)

// A typed grammar of expressions. Holes are <t> for an operand and <t!> for a place that is delimited by itself
// (an argument, an index, an element, a body), where the operand is written without parentheses.
//
// i int, b bool, s string, a []int, w []string, v []pt, p pt, q qt, f fn(int) int, e en.
type form struct {
	typ byte
	low bool // binds less tightly than a postfix
	src string
}

const gramHdr = `
fn mks(x: int) string
fn mkf(x: int) fn(int) int
fn epv() []pt
fn usea(x: []int) nothing
fn useq(x: qt) nothing
fn usef(x: fn(int) int) nothing
fn usev(x: []pt) nothing
fn usew(x: []string) nothing
fn usee(x: en) nothing
fn appb(f: fn() bool) bool = f()
fn apps(f: fn(string) string, s: string) string = f(s)
`

var forms = []form{
	{'i', true, `<i> + <i>`}, {'i', true, `<i> - <i>`}, {'i', true, `<i> << <i>`}, {'i', true, `<i> | <i>`}, {'i', true, `-<i>`}, {'i', true, `~<i>`},
	{'i', true, `<b> ? <i> : <i>`}, {'i', false, `id(<i!>)`}, {'i', false, `<i>.id()`}, {'i', false, `add(<i!>, <i!>)`}, {'i', false, `<i>.add(<i!>)`},
	{'i', false, `<p>.x`}, {'i', false, `<q>.a`}, {'i', false, `<a>[<i!>]`}, {'i', false, `<a>.length`}, {'i', false, `<s>.length`}, {'i', false, `lens(<s!>)`},
	{'i', false, `<f>(<i!>)`}, {'i', false, `apply(<f!>, <i!>)`}, {'i', false, `<f>.apply(<i!>)`}, {'i', false, `apply0(fn() int = <i!>)`}, {'i', false, `apply0(fn() int { return <i!> })`},
	{'i', false, `gid(<i!>)`}, {'i', false, `gid«int»(<i!>)`}, {'i', false, `<p>.f(<i!>)`}, {'i', false, `suma([<i!>, <i!>])`},
	{'b', true, `<i> < <i>`}, {'b', true, `<i> == <i>`}, {'b', true, `<b> and <b>`}, {'b', true, `<b> or <b>`}, {'b', true, `not <b>`}, {'b', true, `<b> ? <b> : <b>`},
	{'b', false, `gid(<b!>)`}, {'b', false, `appb(fn() bool = <b!>)`},
	{'s', false, `<p>.y`}, {'s', false, `<q>.s`}, {'s', false, `<w>[<i!>]`}, {'s', true, `<b> ? <s> : <s>`}, {'s', false, `gid«string»(<s!>)`}, {'s', false, `mks(<i!>)`}, {'s', false, `apps(fn(z: string) string = <b> ? z : <s>, <s!>)`},
	{'a', false, `[<i!>, <i!>]`}, {'a', false, `<q>.arr`}, {'a', false, `mka(<i!>)`}, {'a', true, `<b> ? <a> : <a>`},
	{'v', false, `[<p!>, <p!>]`}, {'v', false, `gid(<v!>)`},
	{'w', false, `[<s!>, <s!>]`},
	{'p', false, `mkp(<i!>)`}, {'p', false, `<q>.t`}, {'p', false, `<v>[<i!>]`}, {'p', false, `Pt(<i!>, <s!>, <f!>, <q!>)`}, {'p', true, `<b> ? <p> : <p>`}, {'p', false, `gid(<p!>)`},
	{'q', false, `<p>.q`}, {'q', false, `Qt(<i!>, <s!>, <a!>, <p!>)`},
	{'f', false, `<p>.f`}, {'f', false, `mkf(<i!>)`}, {'f', true, `fn(z: int) int = <i!>`}, {'f', true, `fn(z: int) int { return z + <i> }`}, {'f', true, `<b> ? <f> : <f>`}, {'f', false, `gid(<f!>)`},
	{'e', false, `mke(<i!>)`}, {'e', false, `Bb(<i!>)`}, {'e', false, `Cc(<s!>, <i!>)`},
}

var gramLeaf = map[byte]string{'i': "e1()", 'b': "eb()", 's': "es()", 'a': "ea()", 'w': "esa()", 'v': "epv()", 'p': "ep()", 'q': "eq()", 'f': "ef()", 'e': "ee()"}
var gramObs = map[byte]string{'i': "use", 'b': "useb", 's': "uses", 'a': "usea", 'w': "usew", 'v': "usev", 'p': "usep", 'q': "useq", 'f': "usef", 'e': "usee"}

// gexpr is a form with some holes filled by forms.
type gexpr struct {
	f    *form
	kids map[int]*gexpr
}

// holes lists the types of a form's holes and whether they are delimited.
func (f *form) holes() (ts []byte, delim []bool) {
	for i := 0; i+2 < len(f.src); i++ {
		if f.src[i] == '<' && f.src[i+2] == '>' {
			ts, delim = append(ts, f.src[i+1]), append(delim, false)
		} else if f.src[i] == '<' && strings.HasPrefix(f.src[i+2:], "!>") {
			ts, delim = append(ts, f.src[i+1]), append(delim, true)
		}
	}
	return
}

// gvars names the variables at the leaves: different ones as far as five allow.
type gvars struct {
	n    int
	last map[byte][]string
	next map[byte]int
}

func (g *gvars) leaf(t byte) string {
	if g.n < 5 {
		g.n++
		v := fmt.Sprintf("%c%d", t, len(g.last[t]))
		g.last[t] = append(g.last[t], v)
		return v
	}
	if l := g.last[t]; len(l) > 0 {
		g.next[t]++
		return l[(g.next[t]-1)%len(l)]
	}
	return gramLeaf[t]
}

func (e *gexpr) text(g *gvars) string {
	s := e.f.src
	ts, delim := e.f.holes()
	for i, t := range ts {
		hole := fmt.Sprintf("<%c>", t)
		if delim[i] {
			hole = fmt.Sprintf("<%c!>", t)
		}
		var x string
		if k := e.kids[i]; k != nil {
			x = k.text(g)
			if k.f.low && !delim[i] {
				x = "(" + x + ")"
			}
		} else {
			x = g.leaf(t)
		}
		// holes are replaced in order, so the first is this one
		j := strings.Index(s, hole)
		for k := 0; k+2 < j; k++ {
			if s[k] == '<' && (s[k+2] == '>' || strings.HasPrefix(s[k+2:], "!>")) {
				panic("holes out of order")
			}
		}
		s = s[:j] + "\x01" + x + "\x02" + s[j+len(hole):]
		s = strings.ReplaceAll(strings.ReplaceAll(s, "\x01", ""), "\x02", "")
	}
	return s
}

// gname describes the composition.
func (e *gexpr) name() string {
	s := e.f.src
	for i, k := range e.kids {
		s = fmt.Sprintf("%s with %s at %d", s, k.name(), i+1)
	}
	return s
}

// compositions of forms to a depth; at each level one hole is filled.
func compositions(depth int) []*gexpr {
	var r []*gexpr
	for i := range forms {
		f := &forms[i]
		r = append(r, &gexpr{f: f})
	}
	cur := r
	for d := 2; d <= depth; d++ {
		var nxt []*gexpr
		for i := range forms {
			f := &forms[i]
			ts, _ := f.holes()
			for h, t := range ts {
				for _, k := range cur {
					if strings.HasPrefix(f.src, "<f>") && h == 0 && k.f.low {
						continue // only names, fields, elements and calls can be called
					}
					if k.f.typ == t {
						nxt = append(nxt, &gexpr{f, map[int]*gexpr{h: k}})
					}
				}
			}
		}
		r = append(r, nxt...)
		cur = nxt
	}
	return r
}

var gramContexts = []nsrc{
	{"statement", `{D} {O}({X})`},
	{"declared", `{D} r := {X} {O}(r)`},
	{"captured", `{D} use(apply0(fn() int { {O}({X}) return 1 }))`},
	{"captured twice", `{D} use(apply0(fn() int { return apply0(fn() int { {O}({X}) return 1 }) }))`},
	{"captured in a loop", `{D} use(apply(fn(y: int) int { for n in 0 .. 2 { {O}({X}) } return y }, 3))`},
	{"captured in a case", `{D} use(apply(fn(y: int) int { match ee() { case Aa(): {O}({X}) case Bb(n): use(n) case Cc(t, m): use(m) } return y }, 3))`},
	{"captured in a declaration", `{D} use(apply(fn(y: int) int { if eb() { r := {X} {O}(r) } return y }, 3))`},
}

// grammarSchemas puts every composition in the named contexts; every keeps one in n of the deeper ones.
func grammarSchemas(rule string, depth, one int, ctx ...string) []*Schema {
	var fs []nsrc
	for n, e := range compositions(depth) {
		if one > 1 && len(e.kids) > 0 && n%one != 0 {
			continue
		}
		for ci, c := range gramContexts {
			ok := false
			for _, x := range ctx {
				ok = ok || x == c.name
			}
			if !ok {
				continue
			}
			_ = ci
			g := &gvars{last: map[byte][]string{}, next: map[byte]int{}}
			x := e.text(g)
			var d []string
			for _, t := range "ibsawvpqfe" {
				for _, v := range g.last[byte(t)] {
					d = append(d, v+" := "+gramLeaf[byte(t)])
				}
			}
			src := strings.NewReplacer("{D}", strings.Join(d, " "), "{O}", gramObs[e.f.typ], "{X}", x).Replace(c.src)
			fs = append(fs, nsrc{e.name() + " " + c.name, "fn @() { " + src + " }"})
		}
	}
	return fnSchemas(rule, gramHdr, fs, 6)
}
