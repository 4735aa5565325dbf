package checks

import (
	"fmt"
	"strings"
	"verif/engine/ai"
	"verif/engine/clara"
)

var binOps = []string{"*", "/", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "&", "^", "|", "and", "or"}

// demand assigns types to the single-letter names of an expression so that it has type t; false if impossible.
func demand(e *clara.Expr, t string, env map[string]string) bool {
	all := func(ct string) bool {
		for _, k := range e.K {
			if !demand(k, ct, env) {
				return false
			}
		}
		return true
	}
	switch e.Op {
	case "id":
		if old, ok := env[e.Val]; ok && old != t {
			return false
		}
		env[e.Val] = t
		return true
	case "int":
		return t == "int"
	case "opAdd", "opSub", "opMul", "opDiv", "opBAnd", "opBOr", "opBXor", "opBLeft", "opBRight", "opNeg", "opBNot":
		return t == "int" && all("int")
	case "opLt", "opGt", "opLte", "opGte", "opEq":
		return t == "bool" && all("int")
	case "opAnd", "opOr", "opNot":
		return t == "bool" && all("bool")
	case "ternary":
		return demand(e.K[0], "bool", env) && demand(e.K[1], t, env) && demand(e.K[2], t, env)
	case "call":
		if len(e.K) == 2 && e.K[0].Op == "id" {
			switch e.K[0].Val {
			case "g", "id", "gid", "twice":
				return t == "int" && demand(e.K[1], "int", env)
			case "pb":
				return t == "bool" && demand(e.K[1], "int", env)
			}
		}
		if len(e.K) == 1 && e.K[0].Op == "id" && e.K[0].Val == "eb" {
			return t == "bool"
		}
	case "mcall":
		if e.Val == "id" || e.Val == "twice" || e.Val == "f" {
			for i, k := range e.K {
				if e.Val == "f" && i == 0 {
					continue
				}
				if !demand(k, "int", env) {
					return false
				}
			}
			return t == "int"
		}
	case "dot":
		if e.Val == "x" || e.Val == "a" || e.Val == "length" {
			return t == "int"
		}
	case "index":
		return t == "int" && demand(e.K[1], "int", env)
	}
	return false
}

// exprTexts are the operator combinations whose grouping is decided.
func exprTexts(c *Ctx) []string {
	var r []string
	for _, a := range binOps {
		for _, b := range binOps {
			r = append(r, "a "+a+" b "+b+" c", "(a "+a+" b) "+b+" c", "a "+a+" (b "+b+" c)")
			for _, d := range binOps {
				r = append(r, "a "+a+" b "+b+" c "+d+" d")
			}
			for _, u := range []string{"-", "not ", "~"} {
				r = append(r, u+"a "+a+" b "+b+" c", "a "+a+" "+u+"b "+b+" c", "a "+a+" b "+b+" "+u+"c")
			}
			r = append(r, "p "+a+" q ? a "+b+" b : c", "p ? a "+a+" b : c "+b+" d", "p "+a+" q "+b+" r ? a : b", "p ? a : b "+a+" c "+b+" d", "(p ? a : b) "+a+" c "+b+" d", "a "+a+" (p ? b : c) "+b+" d", "p ? a : (q ? b "+a+" c : d "+b+" e)")
		}
		for _, u := range []string{"-", "not ", "~"} {
			for _, v := range []string{"-", "not ", "~"} {
				r = append(r, u+v+"a "+a+" b", "a "+a+" "+u+v+"b", u+"a "+a+" "+v+"b", u+"("+v+"a "+a+" b)", u+"(a "+a+" "+v+"b)")
			}
			r = append(r, u+"a "+a+" b ? c : d", "p ? "+u+"a "+a+" b : "+u+"c", u+"(a "+a+" b)")
		}
		for _, post := range []string{"pp.x", "pp.q.a", "ar[b]", "ar[0]", "g(b)", "b.id()", "pp.f(b)", "gid«int»(b)", "id(twice(b))", "ar.length", "pp.q.arr[b]", "pp.q.t.q.a", "b.id().twice()", "ar[ar[b]]", "g(g(b))", "pp.q.arr.length"} {
			r = append(r, "a "+a+" "+post, post+" "+a+" a", "-"+post+" "+a+" a", "a "+a+" -"+post, "~"+post, "a "+a+" "+post+" * c", "ar[a "+a+" "+post+"]", "g(a "+a+" "+post+")", "p ? "+post+" "+a+" c : d", "(a "+a+" "+post+").id()", "pp.f(a "+a+" "+post+")")
		}
		r = append(r, "a "+a+" b ? c : d", "p ? a : b "+a+" c", "p ? a "+a+" b : c", "p ? q ? a : b : c "+a+" d", "p ? a : q ? b : c "+a+" d", "p ? a "+a+" b : q ? c : d", "p "+a+" q ? r ? a : b : c", "not pb(a) "+a+" q", "q "+a+" not pb(a)")
	}
	for _, u := range []string{"-", "not ", "~"} {
		for _, v := range []string{"-", "not ", "~"} {
			for _, w := range []string{"-", "not ", "~"} {
				r = append(r, u+v+w+"a")
			}
			r = append(r, u+v+"pp.x", u+v+"ar[a]", u+v+"g(a)", u+v+"pb(a)")
		}
	}
	return r
}

func groupSchemas(c *Ctx, rule string) []*Schema {
	var fs []nsrc
	seen := map[string]bool{}
	for _, t := range exprTexts(c) {
		if seen[t] {
			continue
		}
		seen[t] = true
		ds, err := clara.Parse("fn z() = "+t, "x")
		if err != nil {
			continue
		}
		for _, ty := range []string{"int", "bool"} {
			env := map[string]string{}
			if !demand(ds[0].Expr, ty, env) {
				continue
			}
			var ps []string
			for _, n := range []string{"a", "b", "c", "d", "e", "p", "q", "r"} {
				if env[n] != "" {
					ps = append(ps, n+": "+env[n])
				}
			}
			for _, x := range []struct{ n, t string }{{"pp.", "pp: pt"}, {"ar", "ar: []int"}, {"g(", "g: fn(int) int"}} {
				if strings.Contains(strings.ReplaceAll(t, "q.arr", ""), x.n) {
					ps = append(ps, x.t)
				}
			}
			if len(ps) > 6 {
				continue
			}
			fs = append(fs, nsrc{t, "fn @(" + strings.Join(ps, ", ") + ") " + ty + " = " + t})
			break
		}
	}
	return fnSchemas(rule, "fn pb(x: int) bool\n", fs, 25)
}

// sequenceSchemas put every pair of statements next to each other.
func sequenceSchemas(rule string) []*Schema {
	var fs []nsrc
	ss := append(append([]nsrc{}, stmtConstructs...), nsrc{"return", "if b { return }"}, nsrc{"assignment", "x = x + 1"}, nsrc{"bare if", "if b { use(4) }"}, nsrc{"negative assignment", "x = -x"}, nsrc{"string call", "uses(es())"}, nsrc{"nested call value", "ef()(x)"}, nsrc{"ternary assignment", "x = b ? 1 : 2"}, nsrc{"elseif chain", "if b { use(1) } elseif eb() { use(2) } elseif eb() { use(3) }"})
	for _, a := range ss {
		for _, b := range ss {
			t := func(s string, k int) string {
				n := fmt.Sprintf("q%d", k)
				return strings.NewReplacer("q :=", n+" :=", "for q ", "for "+n+" ", "(q", "("+n, " q)", " "+n+")", "use(q)", "use("+n+")", "q(", n+"(", "q[", n+"[").Replace(s)
			}
			fs = append(fs, nsrc{a.name + " then " + b.name, "fn @(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, ev: en) { " + t(a.src, 1) + " " + t(b.src, 2) + " use(9) }"})
		}
	}
	return fnSchemas(rule, "", fs, 12)
}

// listSchemas have every kind of list in every length.
func listSchemas(rule string) []*Schema {
	var fs []nsrc
	rep := func(n int, f func(i int) string, sep string) string {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, f(i))
		}
		return strings.Join(r, sep)
	}
	add := func(name, f string, a ...interface{}) { fs = append(fs, nsrc{name, fmt.Sprintf(f, a...)}) }
	for n := 0; n <= 8; n++ {
		for _, els := range []string{"", " else { use(99) use(98) }"} {
			chain := "if eb() { use(100) }" + rep(n, func(i int) string { return fmt.Sprintf(" elseif x == %d { use(%d) use(e1()) }", i, i) }, "") + els
			add(fmt.Sprintf("if with %d elseif%s", n, els), "fn @(x: int) { %s use(7) }", chain)
			add(fmt.Sprintf("nested if with %d elseif%s", n, els), "fn @(x: int) { while eb() { if x > 3 { %s } else { use(8) } } }", chain)
			if els != "" {
				add(fmt.Sprintf("returning if with %d elseif", n), "fn @(x: int) int { if eb() { return 100 }%s else { return 99 } }", rep(n, func(i int) string { return fmt.Sprintf(" elseif x == %d { return %d }", i, i) }, ""))
			}
		}
		stmts := rep(n, func(i int) string { return fmt.Sprintf("use(x + %d)", i) }, " ")
		add(fmt.Sprintf("block of %d", n), "fn @(x: int) { %s }", stmts)
		add(fmt.Sprintf("while body of %d", n), "fn @(x: int) { while eb() { %s } }", stmts)
		add(fmt.Sprintf("for body of %d", n), "fn @(x: int) { for i in 0 .. x { %s } }", stmts)
		add(fmt.Sprintf("case bodies of %d", n), "fn @(x: int) { match ee() { case Aa(): %s case Bb(n): %s case Cc(s, m): %s } use(5) }", stmts, stmts, stmts)
		add(fmt.Sprintf("literal body of %d", n), "fn @(x: int) { use(apply(fn(y: int) int { %s return y }, 3)) }", stmts)
		if n > 0 {
			add(fmt.Sprintf("array literal of %d", n), "fn @(x: int) []int { return [%s] }", rep(n, func(i int) string { return fmt.Sprintf("x + %d", i) }, ", "))
			add(fmt.Sprintf("enum of %d", n), "enum @e { %s }\nfn @(x: @e) int { match x { %s } return 0 }", rep(n, func(i int) string { return fmt.Sprintf("K@%d(v: int)", i) }, " "), rep(n, func(i int) string { return fmt.Sprintf("case K@%d(w): return w + %d", i, i) }, " "))
			ps := []string{"x%d: int", "x%d: string", "x%d: fn(int) int", "x%d: []int", "x%d: opt«int»", "x%d: bool", "x%d: fn(int, string) []int", "x%d: pt"}
			if n <= 6 {
				add(fmt.Sprintf("%d parameters", n), "fn @(%s) { use(1) %s }", rep(n, func(i int) string { return fmt.Sprintf(ps[i], i) }, ", "), rep(n, func(i int) string {
					return []string{"use(x0)", "uses(x1)", "use(x2(1))", "use(x3[0])", "v := x4", "useb(x5)"}[i]
				}, " "))
				add(fmt.Sprintf("%d arguments", n), "fn @c(%s) int = x%d\nfn @(y: int) int = @c(%s)", rep(n, func(i int) string { return fmt.Sprintf("x%d: int", i) }, ", "), n-1, rep(n, func(i int) string { return fmt.Sprintf("y + %d", i) }, ", "))
			}
			if n <= 6 {
				add(fmt.Sprintf("%d fields", n), "struct @s { %s }\nfn @(s: @s) { %s }", rep(n, func(i int) string { return fmt.Sprintf(ps[i], i) }, " "), rep(n, func(i int) string {
					return []string{"use(s.x0)", "uses(s.x1)", "use(s.x2(1))", "use(s.x3[0])", "s.x4 = Som(3)", "useb(s.x5)", "use(s.x6(1, es())[2])", "usep(s.x7)"}[i]
				}, " "))
			}
		}
		if n <= 4 && n > 0 {
			tps := rep(n, func(i int) string { return fmt.Sprintf("T%d", i) }, ", ")
			add(fmt.Sprintf("%d type parameters", n), "fn @g«%s»(%s) T%d = x%d\nfn @(y: int) int = @g(%s)", tps, rep(n, func(i int) string { return fmt.Sprintf("x%d: T%d", i, i) }, ", "), n-1, n-1, rep(n, func(i int) string { return fmt.Sprintf("y + %d", i) }, ", "))
			add(fmt.Sprintf("%d struct type parameters", n), "struct @s«%s» { %s }\nfn @(y: @s«%s») int = y.x%d", tps, rep(n, func(i int) string { return fmt.Sprintf("x%d: T%d", i, i) }, " "), rep(n, func(i int) string { return "int" }, ", "), n-1)
			add(fmt.Sprintf("%d type arguments", n), "fn @g«%s»(%s) T%d = x%d\nfn @(y: int) int = @g«%s»(%s)", tps, rep(n, func(i int) string { return fmt.Sprintf("x%d: T%d", i, i) }, ", "), n-1, n-1, rep(n, func(i int) string { return "int" }, ", "), rep(n, func(i int) string { return fmt.Sprintf("y + %d", i) }, ", "))
			add(fmt.Sprintf("%d case variables", n), "enum @e { K@(%s) }\nfn @(x: @e) int { match x { case K@(%s): return w0 + w%d } return 0 }", rep(n, func(i int) string { return fmt.Sprintf("v%d: int", i) }, ", "), rep(n, func(i int) string { return fmt.Sprintf("w%d", i) }, ", "), n-1)
		}
	}
	var ss []*Schema
	for _, s := range fnSchemas(rule, "", fs, 1) {
		ss = append(ss, s)
	}
	return ss
}

// layoutPrograms exercise every declaration and statement form.
func layoutPrograms() []string {
	decls := `struct bx«T» { v: T n: int }
enum res«T, E» { Ok(t: T) Er(e: E, k: int) No() }
#[RawValues]
fn rawf(x: int, y: string) int
#[ExtRet, RawValues]
fn rawg(x: int) int = x + 1
fn gen«A, B»(f: fn(A) B, a: A) B = f(a)
fn noargs() { }
`
	body := `fn t(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, ev: en) int {
 v := x + 1 * 2 - -3
 w := [1, x, v]
 s := "a // \" b"
 uses(s)
 if b and not eb() { use(v) } elseif x >= 2 { use(w[0]) } else { use(ar.length) }
 while v < 10 { v = v + 1 }
 for i in 0 .. v { use(i) }
 for i in w { use(i) pp.x = i ar[i] = ~i }
 match ev { case Aa(): use(1) case Bb(n): use(n) use(2) case Cc(t, m): uses(t) }
 h := fn(z: int) int = z + v
 k := fn(z: int) int { return z << 1 | 3 & 4 ^ 5 >> 1 }
 use(h(k(1)) / 2)
 use(gen«int, int»(k, 0x1F))
 use(b ? x : gid(v))
 use(x.id().twice())
 o := Som(true)
 match o { case Som(tt): useb(tt) case Non(): noargs() }
 q := Bx(x, v)
 return q.v + q.n
}
`
	return []string{shdr + decls + body + "fn main() { noargs() }\n"}
}

// layouts are texts with the same tokens.
func layouts(src string) []nsrc {
	ts, err := clara.Lex(src)
	if err != nil {
		panic(err)
	}
	ts = ts[:len(ts)-1]
	word := func(k clara.Tok) bool {
		switch k.Kind {
		case "String":
			return false
		}
		r := []rune(k.Val)[0]
		return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
	}
	join := func(sep func(i int) string) string {
		var b strings.Builder
		for i, t := range ts {
			if i > 0 {
				b.WriteString(sep(i))
			}
			b.WriteString(t.Val)
		}
		return b.String()
	}
	tight := func(i int) string {
		a, b := ts[i-1], ts[i]
		if word(a) && (word(b) || !strings.Contains("( :,).+-*/><[]«»", string([]rune(b.Val)[0]))) {
			return " "
		}
		if !word(a) && !word(b) && !strings.Contains("()[]{}", a.Val) && !strings.Contains("()[]{}", b.Val) {
			return " "
		}
		return ""
	}
	blank := []string{" ", "\n", "  ", "\r\n", " // c\n", "\n\n", "//\n", "    ", " //\"x\" { ( // y\r\n", "\r"}
	return []nsrc{
		{"one space", join(func(i int) string { return " " })},
		{"a line each", join(func(i int) string { return "\n" })},
		{"a line each with CR LF", join(func(i int) string { return "\r\n" })},
		{"a comment after each", join(func(i int) string { return " // comment é 1 \"\n" })},
		{"no blanks", join(tight)},
		{"mixed", join(func(i int) string { return blank[i%len(blank)] })},
		{"leading and trailing", "\n// first\n  " + join(func(i int) string { return " " }) + " \n\n // last"},
	}
}

func init() {
	tableMins["C17"] = map[string]int{"grouping": 2500, "statement sequence": 400, "layout": 6, "lists": 150, "declaration parts": 500}
	Registry["C17"] = func(c *Ctx) {
		o := cgOpts{Semantics: true}
		c.runSchemas(groupSchemas(c, "grouping"), o)
		c.runSchemas(sequenceSchemas("statement sequence"), o)
		c.runSchemas(listSchemas("lists"), o)
		c.runSchemas(grammarSchemas("composition", 2, 1, "statement"), o)
		c.Min("composition", 3000)
		so := cgOpts{Semantics: true, Visits: 400}
		c.runSchemas(fnSchemas("large body", "", longBodies(c.Thorough), 3), so)
		c.runSchemas(fnSchemas("deep nesting", "", deepNests(c.Thorough), 4), so)
		c.Min("large body", 130)
		c.Min("deep nesting", 80)
		var ds []*Schema
		for _, l := range [][]*Schema{consSchemas(), placeSchemas("declaration parts"), matchSchemas("declaration parts"), forSchemas("declaration parts")} {
			for _, s := range thin(c, l) {
				s.Rule = "declaration parts"
				ds = append(ds, s)
			}
		}
		c.runSchemas(ds, o)
		p := c.P
		lexFn, next := p.FuncIn(p.Lex, "Lex"), p.FuncIn(p.Lex, "Lexer.NextToken")
		for _, src := range layoutPrograms() {
			base := compileSchema(c, src, nil)
			if base.Und != "" || len(base.Errs) > 0 || base.Panic != "" {
				c.Fail("layout", "canonical", base.Where, "the program of all forms is not compiled: %s %s %s", base.Und, base.Panic, strings.Join(base.Errs, "; "))
				continue
			}
			ls := layouts(src)
			c.Parallel(len(ls), func(c *Ctx, i int) {
				r := compileSchema(c, ls[i].src, func(m *ai.Machine) {
					delete(m.Hooks, lexFn)
					delete(m.Hooks, next)
					m.EagerGo = true
					m.MaxSteps = 40000000
				})
				if r.Und != "" || len(r.Errs) > 0 || r.Panic != "" {
					c.Fail("layout", ls[i].name, r.Where, "the program is not compiled in this layout: %s %s %s", r.Und, r.Panic, strings.Join(r.Errs, "; "))
					return
				}
				c.Check(r.Text == base.Text, "layout", ls[i].name, "", "the program compiles differently in this layout: %s", firstDiff(base.Text, r.Text))
			})
		}
	}
}
