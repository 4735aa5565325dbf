package checks

import (
	"strings"

	"verif/engine/asmx"
	"verif/engine/clara"
)

// stops checks that a library routine ends the program and prints the given values.
func stops(c *Ctx, rule string, lib *SProg, name string, set func(l *libRun, d *clara.Decl) ([]SV, []asmx.Poly)) {
	d := libFn(lib, name)
	where := d.File + ":" + name
	var want []asmx.Poly
	exploreLib(lib, d, func(l *libRun) []SV {
		vs, w := set(l, d)
		want = w
		return vs
	}, 32, func(x *libPath) {
		c.Traces++
		if !c.Check(x.Exit == "stop", rule, name+" stops the program", where, "%s %s", x.Exit, x.Msg) {
			return
		}
		shown := false
		for _, e := range x.L.Ev {
			if e.Kind == "call" && e.Name == "printf" {
				at := 1
				n := 0
				for ; at < len(e.Args) && n < len(want); at++ {
					if x.L.W.Eq(e.Args[at], want[n]) {
						n++
					}
				}
				shown = shown || n == len(want)
			}
		}
		c.Check(shown, rule, name+" reports", where, "no message with the values %v", want)
	})
}

func init() {
	Registry["C06"] = func(c *Ctx) {
		o := cgOpts{Semantics: true}
		c.runFam("array access", accessFam(), ctxNames, o)
		var tps []*Template
		for _, tp := range append(stmtTemplates("array write"), composedStmts("array write", c.Thorough)...) {
			if strings.Contains(tp.Name, "elem") {
				tps = append(tps, tp)
			}
		}
		c.runStmts(tps, o)
		var ss []*Schema
		for _, s := range placeSchemas("element of every type") {
			if strings.Contains(s.Src, "[]") {
				ss = append(ss, s)
			}
		}
		c.runSchemas(ss, o)
		// every form of index, into every form of array
		var at []nsrc
		for _, p := range intPositions {
			if strings.Contains(p.name, "index") {
				at = append(at, p)
			}
		}
		for _, a := range arrayForms {
			at = append(at, nsrc{"index of " + a.name, "use(" + a.src + "[%s])"})
			if a.src[0] != '[' && a.src[0] != '(' { // no statement begins so
				at = append(at, nsrc{"assigned index of " + a.name, a.src + "[%s] = e2()"})
			}
		}
		forms := append([]nsrc{}, intConstructs...)
		for _, op := range []string{"+", "-", "*", "/", "&", "|", "^", "<<", ">>"} {
			for _, r := range []string{"7", "1", "pp.x", "e1()"} {
				forms = append(forms, nsrc{"x " + op + " " + r, "x " + op + " " + r})
			}
			forms = append(forms, nsrc{"7 " + op + " x", "7 " + op + " x"}, nsrc{"e1() " + op + " e2()", "e1() " + op + " e2()"})
		}
		forms = append(forms, nsrc{"-x", "-x"}, nsrc{"~x", "~x"}, nsrc{"-e1()", "-e1()"}, nsrc{"~e1()", "~e1()"}, nsrc{"(x)", "(x)"}, nsrc{"0", "0"}, nsrc{"1", "1"}, nsrc{"-1", "-1"}, nsrc{"large", "4000000000"}, nsrc{"last", "ar.length - 1"}, nsrc{"length", "ar.length"})
		c.runSchemas(nestedIn("form of index", forms, at), o)
		c.Min("form of index", 800)
		lib := loadLib(c)
		libBounds(c, "library accessors", lib)
		r := compileSchema(c, "fn main() {}\n", nil)
		ds, err := typeTable(asmx.Parse(r.Text))
		if err != nil {
			c.Fail("library objects", "type table", "codegen.go genTypeInfoTable", "%v", err)
			return
		}
		libObjects(c, "library objects", lib, ds)
		stops(c, "panic", lib, "indexOutOfBounds", func(l *libRun, d *clara.Decl) ([]SV, []asmx.Poly) {
			vs := l.params(d)
			var w []asmx.Poly
			for _, v := range vs {
				w = append(w, untagW(l.W, v.P))
			}
			return vs, w
		})
		stops(c, "panic", lib, "panic", func(l *libRun, d *clara.Decl) ([]SV, []asmx.Poly) {
			vs := l.params(d)
			return vs, []asmx.Poly{vs[0].P.Add(konst(8))}
		})
	}
}

// arrayForms are expressions of type []int.
var arrayForms = []nsrc{{"variable", "ar"}, {"literal", "[x, 2, e1()]"}, {"call", "mka(x)"}, {"field", "pp.q.arr"}, {"field of call", "eq().arr"}, {"element", "[ar, mka(2)][e1()]"}, {"conditional", "(b ? ar : mka(3))"}, {"generic call", "gid(ar)"}, {"method", "x.mka()"}}
