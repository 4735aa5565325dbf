package checks

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"verif/engine/ai"
	"verif/engine/clara"

	"golang.org/x/tools/go/ssa"
)

// rejected decides that a program is diagnosed and no executable is produced.
func rejected(c *Ctx, rule, name string, r Compiled) {
	switch {
	case r.Und != "":
		c.Fail(rule, name, r.Where, "undecided: %s", r.Und)
	case r.Panic != "":
		c.Fail(rule, name, r.Where, "the compiler panics: %s", r.Panic)
	case len(r.Errs) == 0:
		c.Fail(rule, name, "", "the problem is not reported; the compiler accepts the program")
	case r.Linked || r.Out != "":
		c.Fail(rule, name, "", "an executable is produced (%q) although %s is reported", r.Out, r.Errs[0])
	default:
		c.Ok(rule)
		c.Sample(rule, name)
	}
}

var twoFiles = []string{"/lib/prelude.clara", "/src/prog.clara"}

func compileText(c *Ctx, lib, prog string, opt func(m *ai.Machine, d *driver)) Compiled {
	return compileEnv(c, twoFiles, map[string]string{"/lib/prelude.clara": lib, "/src/prog.clara": prog}, func(m *ai.Machine, d *driver) {
		d.lexErrs = true
		if opt != nil {
			opt(m, d)
		}
	})
}

// editProgram has every declaration, statement and expression form once.
const editProgram = `struct bx«T» { v: T n: fn(int, string) []int }
enum res«T» { Ok(t: T, k: int) No() }
#[RawValues, ExtRet] fn rawf(x: int, y: string) int
fn gen«A, B»(f: fn(A) B, a: A) B = f(a)
fn t(x: int, ar: []int) int {
v := - x + 1 * (2 - 3)
if not (v == 1) and true { use(v) } elseif v >= 2 { use(ar[0]) } else { return ar.length }
while v < 10 { v = v + 1 }
for i in 0 .. v { use(i) }
for i in [1, v] { ar[i] = ~ i }
match Ok("s", v) { case Ok(t, m): uses(t) case No(): use(0x1F) }
h := fn(z: int) int = z + v
k := fn(z: int) int { return z }
use(gen«int, int»(k, v > 1 ? h(1) : v.id()))
return unsafe(x, 0, type(int))
}
fn main() { }
`

var editTokens = []string{"fn", "return", "if", "elseif", "else", "true", "not", "and", "struct", "while", "for", "in", "enum", "match", "case", "type", "x", "1", `"s"`, "(", ")", "{", "}", "[", "]", "«", "»", "#", "?", ",", ":", ":=", "=", "==", "+", "-", "~", "<<", "<", ".", ".."}

func init() {
	tableMins["C10"] = map[string]int{"truncated input": 300, "invalid token sequence": 3000, "lexical error": 300, "stage": 400, "driver": 5, "exit status": 4, "all problems": 100}
	Registry["C10"] = func(c *Ctx) {
		hdr := "fn use(x: int) nothing\nfn uses(x: string) nothing\nfn id(x: int) int\n"
		src := hdr + editProgram
		ts, err := clara.Lex(src)
		if err != nil {
			panic(err)
		}
		ts = ts[:len(ts)-1]
		text := func(ts []clara.Tok) string {
			var b strings.Builder
			for _, t := range ts {
				b.WriteString(t.Val + " ")
			}
			return b.String()
		}
		at := func(i int) string {
			lo, hi := i-4, i+4
			if lo < 0 {
				lo = 0
			}
			if hi > len(ts) {
				hi = len(ts)
			}
			return strings.TrimSpace(text(ts[lo:i])) + " ⟨here⟩ " + strings.TrimSpace(text(ts[i:hi]))
		}
		mustAccept(c, "stage", "the program of all forms", src)
		type edit struct{ rule, name, lib, prog string }
		var es []edit
		add := func(rule, name string, l []clara.Tok) {
			s := text(l)
			if _, err := clara.Parse(s, "x"); err != nil {
				es = append(es, edit{rule, name, prelude, s})
			}
		}
		cp := func(a []clara.Tok, mid []clara.Tok, b []clara.Tok) []clara.Tok {
			return append(append(append([]clara.Tok{}, a...), mid...), b...)
		}
		for i := range ts {
			add("truncated input", at(i), ts[:i])
			add("invalid token sequence", "without the token: "+at(i), cp(ts[:i], nil, ts[i+1:]))
			add("invalid token sequence", "token doubled: "+at(i), cp(ts[:i+1], nil, ts[i:]))
			if i+1 < len(ts) {
				add("invalid token sequence", "tokens swapped: "+at(i), cp(ts[:i], []clara.Tok{ts[i+1], ts[i]}, ts[i+2:]))
			}
			for j, t := range editTokens {
				if !c.Thorough && (i*7+j)%6 != 0 {
					continue
				}
				add("invalid token sequence", "token replaced by "+t+": "+at(i), cp(ts[:i], []clara.Tok{{Val: t}}, ts[i+1:]))
				add("invalid token sequence", "additional "+t+": "+at(i), cp(ts[:i], []clara.Tok{{Val: t}}, ts[i:]))
			}
			es = append(es, edit{"lexical error", at(i), prelude, text(cp(ts[:i], []clara.Tok{{Val: "%"}}, ts[i:]))})
		}
		es = append(es, edit{"lexical error", "at the end", prelude, src + "%"}, edit{"lexical error", "unclosed string at the end", prelude, src + `"`}, edit{"lexical error", "only", prelude, "%"})
		pts, _ := clara.Lex(prelude)
		pts = pts[:len(pts)-1]
		for i := range pts {
			es = append(es, edit{"lexical error", fmt.Sprint("in the library, at token ", i), text(cp(pts[:i], []clara.Tok{{Val: "%"}}, pts[i:])), src})
			s := text(pts[:i])
			if _, err := clara.Parse(s, "x"); err != nil {
				es = append(es, edit{"truncated input", fmt.Sprint("library cut at token ", i), s, src})
			}
		}
		c.Parallel(len(es), func(c *Ctx, i int) {
			rejected(c, es[i].rule, es[i].name, compileText(c, es[i].lib, es[i].prog, nil))
		})
		// a problem found by any stage, in any place, stops the build
		stages := []nsrc{
			{"syntax", "fn t( {"}, {"attribute", "#[ fn t() {}"}, {"top level", "x := 1"}, {"unknown type", "fn t(x: nowhere) {}"}, {"unknown field type", "struct s { x: nowhere }"}, {"unknown constructor type", "enum e { K(x: nowhere) }"}, {"unknown type argument", "fn t(x: opt2«int») {}"}, {"duplicate struct", "struct s { x: int } struct s { x: int }"}, {"duplicate enum", "enum s { A() } enum s { B() }"}, {"duplicate function", "fn t() {} fn t() {}"}, {"duplicate field", "struct s { x: int x: int }"}, {"duplicate parameter", "fn t(x: int, x: int) {}"}, {"duplicate constructor", "enum e { A() A() }"},
			{"literal range", "fn t() { use(9223372036854775808) }"}, {"negated literal range", "fn t() { use(-9223372036854775809) }"}, {"hex range", "fn t() { use(0xFFFFFFFFFFFFFFFFF) }"}, {"literal in default", "fn t() int = 99999999999999999999"},
			{"undeclared", "fn t() { use(y) }"}, {"mismatch", `fn t() { use("s") }`}, {"no return", "fn t() int { use(1) }"}, {"wrong return", `fn t() int { return "s" }`}, {"missing function", "fn t() { nofn() }"}, {"condition", "fn t() { if 1 { } }"}, {"while condition", "fn t() { while 1 { } }"}, {"for", "fn t() { for i in 1 { } }"}, {"range", `fn t() { for i in 0 .. "s" { } }`}, {"match", "fn t() { match 1 { } }"}, {"match cases", "enum e { A() B() } fn t(x: e) { match x { case A(): use(1) } }"}, {"assignment", `fn t() { x := 1 x = "s" }`}, {"index", "fn t() { x := 1 use(x[0]) }"}, {"field", "struct s { x: int } fn t(x: s) { use(x.y) }"}, {"operator", `fn t() { use(1 + "s") }`}, {"logical", "fn t() { x := 1 and true }"}, {"ternary", `fn t() { use(true ? 1 : "s") }`}, {"array literal", `fn t() { x := [1, "s"] }`}, {"empty array literal", "fn t() { x := [] }"}, {"literal body", `fn t() { x := fn() int = "s" }`}, {"type arguments", "fn g«T»(x: T) T = x fn t() { use(g«string»(1)) }"}, {"seven parameters", "fn t(a: int, b: int, c: int, d: int, e: int, f: int, g: int) {}"}, {"seven fields", "struct s { a: int b: int c: int d: int e: int f: int g: int }"}, {"nested condition", "fn t() { while true { if true { use(1) } elseif 2 { use(3) } } }"}, {"nested declaration", "fn t() { f := fn() nothing { x := 1 x := 2 } }"},
		}
		bx := "struct bx«T» { v: T } enum en«T» { Ka(t: T) Kb() } fn g«T»(x: T) T = x fn mk«T»() T { return mk«T»() } "
		for _, ty := range []nsrc{{"unknown", "nowhere"}, {"unknown in array", "[]nowhere"}, {"unknown in function", "fn(nowhere) int"}, {"unknown result", "fn(int) nowhere"}, {"unknown argument", "bx«nowhere»"}, {"arguments of int", "int«int»"}, {"too many of struct", "bx«int, int»"}, {"too many of enum", "en«int, int»"}, {"function as type", "g"}, {"constructor as type", "Ka"}, {"unknown in enum", "en«[]nowhere»"}, {"arguments in array", "[]string«int»"}} {
			stages = append(stages, nsrc{ty.name + " in call", bx + "fn t() { v := mk«" + ty.src + "»() }"}, nsrc{ty.name + " in parameter", bx + "fn t(x: " + ty.src + ") { }"}, nsrc{ty.name + " in result", bx + "fn t() " + ty.src + " { return t() }"},
				nsrc{ty.name + " in field", bx + "struct sx { x: " + ty.src + " }"}, nsrc{ty.name + " in constructor", bx + "enum ex { Kx(x: " + ty.src + ") }"}, nsrc{ty.name + " in literal parameter", bx + "fn t() { v := fn(x: " + ty.src + ") int = 1 }"}, nsrc{ty.name + " in literal result", bx + "fn t() { v := fn(x: int) " + ty.src + " { return mk«int»() } }"},
				nsrc{ty.name + " in nested call", bx + "fn t() { while true { if true { use(id(1)) v := g(mk«" + ty.src + "»()) } } }"})
		}
		stages = append(stages,
			nsrc{"literal of six parameters with capture", "fn t(a: int) { v := fn(c: int, d: int, e: int, g: int, h: int, i: int) int = a + i }"},
			nsrc{"literal of six parameters with capture, returned", "fn t(a: int) fn(int, int, int, int, int, int) int { return fn(c: int, d: int, e: int, g: int, h: int, i: int) int = a + i }"},
			nsrc{"literal of six parameters with capture, nested", "fn t(a: int) { while true { use(id(1)) v := fn() int { w := fn(c: int, d: int, e: int, g: int, h: int, i: int) int = a return 1 } } }"},
			nsrc{"literal of six parameters with capture, in an argument", "fn u(f: fn(int, int, int, int, int, int) int) int = 1 fn t(a: int) { use(u(fn(c: int, d: int, e: int, g: int, h: int, i: int) int = a)) }"},
			nsrc{"seven captures", "fn t(a: int, b: int, c: int, d: int, e: int, f: int) { k := 1 v := fn() int = a + b + c + d + e + f + k }"},
			nsrc{"value call with six arguments", "fn t(f: fn(int, int, int, int, int, int) int) { use(f(1, 2, 3, 4, 5, 6)) }"},
			nsrc{"value call with six arguments in a case", "enum e { Ka(x: int) } fn t(f: fn(int, int, int, int, int, int) int, y: e) { match y { case Ka(x): use(f(x, 2, 3, 4, 5, 6)) } }"},
			nsrc{"value call with six arguments in a loop", "fn t(f: fn(int, int, int, int, int, int) int) { for i in 0 .. 3 { use(f(i, 2, 3, 4, 5, 6)) } }"},
			nsrc{"field call with six arguments", "struct fx { f: fn(int, int, int, int, int, int) int } fn t(y: fx) { use(y.f(1, 2, 3, 4, 5, 6)) }"},
			nsrc{"six case parameters", "enum e { Ka(a: int, b: int, c: int, d: int, e: int, f: int) }"},
			nsrc{"external value", "fn t() { f := use }"}, nsrc{"type value", "struct s { x: int } fn t() { f := s }"}, nsrc{"ambiguous value", "fn o(x: int) int = 1 fn o(x: string) int = 2 fn t() { f := o }"},
			nsrc{"overload", `fn o(x: int) int = 1 fn o(x: string) int = 2 fn t() { use(o(true)) }`}, nsrc{"argument count", "fn t() { use(1, 2) }"}, nsrc{"value argument count", "fn t(f: fn(int) int) { use(f()) }"}, nsrc{"not addressable", "fn t() { id(1) = 2 }"}, nsrc{"read-only length", "fn t(a: []int) { a.length = 2 }"}, nsrc{"upper-case struct", "struct Up { x: int }"}, nsrc{"constructor override", "struct up { x: int } fn Up(x: int) int = x"}, nsrc{"not a struct", "fn t(x: int) { use(x.y) }"}, nsrc{"dot literal", "struct s { x: int } fn t(x: s) { use(x.1) }"}, nsrc{"index type", `fn t(x: []int) { use(x["a"]) }`}, nsrc{"unknown case", "enum e { Ka() } fn t(x: e) { match x { case Ka(): use(1) case Kz(): use(2) } }"}, nsrc{"case twice", "enum e { Ka() } fn t(x: e) { match x { case Ka(): use(1) case Ka(): use(2) } }"}, nsrc{"case arguments", "enum e { Ka(x: int) } fn t(x: e) { match x { case Ka(): use(1) } }"}, nsrc{"unbound type parameter", "fn mk«T»() []T = mk«T»() fn t() { x := mk() }"}, nsrc{"unneeded type arguments", "fn t() { use(id«int»(1)) }"}, nsrc{"return value from nothing", "fn t() { return 1 }"}, nsrc{"return nothing", "fn t() int { return }"}, nsrc{"literal overload of declaration", "fn t() { use := 1 use := 2 }"})
		c.Parallel(len(stages)*3, func(c *Ctx, i int) {
			s := stages[i/3]
			switch i % 3 {
			case 0:
				rejected(c, "stage", s.name, compileText(c, prelude, hdr+s.src+"\nfn main() {}\n", nil))
			case 1:
				rejected(c, "stage", s.name+" after other functions", compileText(c, prelude, hdr+"fn before(x: int) int = x + 1\nfn main() { use(before(1)) }\n"+s.src+"\n", nil))
			default:
				rejected(c, "stage", s.name+" in the library", compileText(c, prelude+hdr+s.src+"\n", "fn main() {}\n", nil))
			}
		})
		// in a large program
		fill := func(n int) string {
			return rep(n, func(i int) string {
				return fmt.Sprintf("fn filler%d(x: int) int { v := x + %d if v > 3 { use(v) } return v }", i, i)
			}, "\n") + "\n"
		}
		var big []nsrc
		for i, s := range stages {
			if c.Thorough || i%4 == 0 {
				big = append(big, nsrc{s.name + " after 150 functions", fill(150) + s.src + "\nfn main() {}\n"})
			}
			if i%60 == 0 {
				big = append(big, nsrc{s.name + " after 1200 functions", fill(1200) + s.src + "\nfn main() {}\n"}, nsrc{s.name + " before 1200 functions", s.src + "\n" + fill(1200) + "fn main() {}\n"})
			}
		}
		for i, s := range stages {
			if i%40 == 0 {
				for _, gap := range []string{" ", "\n", "// note\n"} {
					big = append(big, nsrc{fmt.Sprintf("%s after %d of %q", s.name, 70000, gap), "fn main() {}\n" + strings.Repeat(gap, 70000) + s.src + "\n"})
				}
			}
		}
		mustAccept(c, "stage", "a large program", hdr+fill(1500)+"fn main() {}\n")
		c.Parallel(len(big), func(c *Ctx, i int) {
			rejected(c, "large program", big[i].name, compileText(c, prelude, hdr+big[i].src, nil))
		})
		c.Min("large program", 40)
		// failures of the outside world
		for _, f := range []string{"read /lib/prelude.clara", "read /src/prog.clara", "create", "link"} {
			f := f
			rejected(c, "driver", f+" fails", compileText(c, prelude, src, func(m *ai.Machine, d *driver) { d.fail = f }))
		}
		ok := compileText(c, prelude, src, nil)
		c.Check(ok.Und == "" && ok.Panic == "" && len(ok.Errs) == 0 && ok.Linked && ok.Out != "", "driver", "nothing fails", "", "a valid program is not linked and reported: %s %s %v linked=%v out=%q", ok.Und, ok.Panic, ok.Errs, ok.Linked, ok.Out)
		allProblems(c, hdr)
		exitStatus(c)
	}
}

// allProblems decides that two problems of the same stage in different functions are both reported.
func allProblems(c *Ctx, hdr string) {
	bad := []string{"use(y)", `use("s")`, "nofn()", "if 1 { }", "while 1 { }", "for i in 1 { }", "q := 1 q = true", "q := 1 use(q[0])", `use(1 + "s")`, `use(true ? 1 : "s")`, `q := fn() int = "s"`, "q := 1 q := 2", "use(q.length)"}
	wraps := []string{"%s", "if true { %s }", "while true { %s }", "for i in 0 .. 3 { %s }", "use(1) %s"}
	type tc struct{ a, b string }
	var ts []tc
	for i, a := range bad {
		for j, b := range bad {
			ts = append(ts, tc{fmt.Sprintf(wraps[(i+j)%len(wraps)], a), fmt.Sprintf(wraps[(i*3+j)%len(wraps)], b)})
		}
	}
	line := strings.Count(hdr, "\n") + 1
	for _, n := range []int{12, 30, 70, 300} {
		r := compileText(c, prelude, hdr+rep(n, func(i int) string { return fmt.Sprintf("fn t%d() { %s }", i, bad[i%len(bad)]) }, "\n")+"\nfn main() {}\n", nil)
		d := diagnosed(r.Errs)
		for i := 0; i < n; i++ {
			c.Check(r.Und == "" && r.Panic == "" && d[line+i], "all problems", fmt.Sprintf("number %d of %d: %s", i, n, bad[i%len(bad)]), r.Where, "the problem is not reported among %d others", len(r.Errs))
		}
	}
	c.Parallel(len(ts), func(c *Ctx, i int) {
		r := compileText(c, prelude, hdr+"fn t1() { "+ts[i].a+" }\nfn t2() { "+ts[i].b+" }\nfn main() {}\n", nil)
		d := diagnosed(r.Errs)
		name := ts[i].a + " and " + ts[i].b
		c.Check(r.Und == "" && r.Panic == "" && d[line] && d[line+1], "all problems", name, r.Where, "not every problem is reported: %s", strings.Join(r.Errs, "; "))
	})
}

// exitStatus interprets main with a compile driver that succeeds or fails.
func exitStatus(c *Ctx) {
	comp := c.MustAnchor("Compile")
	mainFn := c.MustAnchor("main")
	for _, n := range []int{0, 1, 2, 3, 11, 40, 256, 300, 512} {
		n := n
		c.Traces++
		var exits []string
		printed := ""
		und := ""
		called := 0
		ai.Explore(c.P, 200, func(m *ai.Machine) { m.Covered = c.Funcs; m.Edges = c.Blocks }, func(m *ai.Machine) {
			m.InitGlobals()
			m.EvalStringer = true
			called = 0
			m.Hooks[comp] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
				called++
				var es []ai.Value
				for i := 0; i < n; i++ {
					es = append(es, m.NewErr(fmt.Sprintf("problem%d", i)))
				}
				if n == 0 {
					return ai.Tuple{"/out/prog", ai.Nil{}}, true
				}
				return ai.Tuple{"", m.MkSlice(es...)}, true
			}
			m.ExtHooks["os/user.Current"] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
				return ai.Tuple{m.NewObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), "user"), ai.Nil{}}, true
			}
			for _, k := range []string{"String", "Bool", "Int"} {
				m.ExtHooks["flag."+k] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
					return &ai.Cell{V: args[1], Name: "flag"}, true
				}
			}
			m.ExtHooks["path/filepath.Glob"] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
				return ai.Tuple{m.MkSlice("/lib/a.clara"), ai.Nil{}}, true
			}
			exit := "0"
			func() {
				defer func() {
					if x := recover(); x != nil {
						if ap, ok := x.(ai.AbsPanic); ok {
							exit = "panic " + ai.Show(ap.V)
							for _, e := range m.Events {
								if e.Kind == "exit" {
									exit = ai.Show(e.Args[0])
								}
							}
							return
						}
						panic(x)
					}
				}()
				m.Call(mainFn, nil)
			}()
			var sb strings.Builder
			for _, e := range m.Events {
				if e.Kind == "print" {
					for _, a := range e.Args[1:] {
						if s, ok := a.(string); ok {
							sb.WriteString(s + "\n")
						}
					}
				}
			}
			printed = sb.String()
			if called != 1 {
				exit += fmt.Sprintf(" after %d compilations", called)
			}
			for i := 0; i < n; i++ {
				if !strings.Contains(printed, fmt.Sprintf("problem%d", i)) {
					exit += fmt.Sprintf(" without printing problem %d", i)
				}
			}
			exits = append(exits, exit)
		}, func(m *ai.Machine, a ai.Abort) { und = a.Reason + " at " + m.Where() })
		name := fmt.Sprintf("%d problems", n)
		if und != "" {
			c.Fail("exit status", name, "", "undecided: %s", und)
			continue
		}
		good := len(exits) > 0
		for _, e := range exits {
			if k, err := strconv.Atoi(e); err == nil {
				e = strconv.Itoa(k & 255) // what the system keeps of a status
			}
			if n == 0 && e != "0" || n > 0 && (e == "0" || strings.Contains(e, " ")) {
				good = false
			}
		}
		c.Check(good, "exit status", name, c.P.Pos(mainFn.Pos()), "with %d reported problems the compiler ends with status %s", n, strings.Join(exits, ", "))
	}
}
