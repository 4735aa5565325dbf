package checks

import (
	"fmt"
	"math/big"
	"strings"

	"verif/engine/asmx"
)

// intLiterals are literal spellings around every power of two, in both notations and signs; in range or not.
func intLiterals() (in, out []string) {
	seen := map[string]bool{}
	max := new(big.Int).Lsh(big.NewInt(1), 62)
	min := new(big.Int).Neg(max)
	add := func(s string, v *big.Int) {
		if seen[s] {
			return
		}
		seen[s] = true
		if v.Cmp(min) >= 0 && v.Cmp(max) < 0 {
			in = append(in, s)
		} else {
			out = append(out, s)
		}
	}
	var vals []*big.Int
	for k := uint(0); k <= 66; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-1); d <= 1; d++ {
			vals = append(vals, new(big.Int).Add(p, big.NewInt(d)))
		}
	}
	for k := int64(1); k <= 21; k++ {
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil)
		vals = append(vals, p, new(big.Int).Sub(p, big.NewInt(1)))
	}
	for _, v := range vals {
		if v.Sign() < 0 {
			continue
		}
		n := new(big.Int).Neg(v)
		add(v.String(), v)
		add("-"+v.String(), n)
		add("0x"+v.Text(16), v)
		add("0x"+strings.ToUpper(v.Text(16)), v)
		add("-0x"+v.Text(16), n)
		if v.BitLen() < 40 {
			add("0x000"+v.Text(16), v)
		}
	}
	return
}

func literalSchemas(rule string) []*Schema {
	in, _ := intLiterals()
	var fs []nsrc
	for _, l := range in {
		fs = append(fs, nsrc{"result " + l, "fn @() int = " + l})
	}
	ctxs := []string{"use(%s)", "use(e1() + %s)", "use(%s - e1())", "v := %s use(v)", "v := 3 v = %s use(v)", "useb(e1() < %s)", "useb(%s == e1())", "ev := add(e1(), %s) use(ev)",
		"p := ep() p.x = %s", "a := ea() a[1] = %s", "if e1() > %s { use(1) }", "use(eb() ? %s : 2)", "use(suma([1, %s]))", "use(ea()[%s])", "usep(mkp(%s))", "while e1() > %s { use(1) }", "use(id(%s) * 2)", "use(~%s)", "use(-(%s))", "use(not(e1() == %s) ? 1 : 2)", "use(apply(fn(x: int) int = x + %s, 2))", "match mke(%s) { case Aa(): use(1) case Bb(n): use(n) case Cc(s, m): use(m) }", "for i in ea() { use(i + %s) }"}
	for _, l := range []string{"0", "1", "-1", "7", "-8", "127", "128", "-128", "255", "256", "0xFF", "-0xff", "2147483647", "2147483648", "-2147483648", "-2147483649", "0x80000000", "0xFFFFFFFF", "4294967296", "1099511627776", "-1099511627776", "4611686018427387903", "-4611686018427387904", "0x3FFFFFFFFFFFFFFF", "-0x4000000000000000"} {
		for i, c := range ctxs {
			fs = append(fs, nsrc{fmt.Sprintf("%s in context %d", l, i), "fn @() { " + fmt.Sprintf(c, l) + " }"})
		}
	}
	fs = append(fs, nsrc{"minus minus", "fn @(x: int) { use(- -5) use(x - -5) use(x -5) use(x-5) use(-(-5)) use(- 5) use(-x) use(- -x) }"})
	for _, b := range []string{"true", "false"} {
		for i, c := range []string{"useb(%s)", "v := %s useb(v)", "v := eb() v = %s useb(v)", "useb(not %s)", "useb(%s and eb())", "useb(eb() or %s)", "use(%s ? 1 : 2)", "if %s { use(1) } else { use(2) }", "while eb() { useb(%s) }", "useb(gid(%s))", "ubs([%s, eb()])", "useb(ab(fn() bool = %s))", "useb(not(not %s))", "s := bst() s.b = %s"} {
			fs = append(fs, nsrc{fmt.Sprintf("%s in context %d", b, i), "fn @() { " + fmt.Sprintf(c, b) + " }"})
		}
		fs = append(fs, nsrc{"result " + b, "fn @() bool = " + b}, nsrc{"returned " + b, "fn @() bool { return " + b + " }"})
	}
	hdr := "fn ubs(a: []bool) nothing\nfn ab(f: fn() bool) bool = f()\nstruct bsx { b: bool }\nfn bst() bsx\n"
	ss := fnSchemas(rule, hdr, fs, 40)
	return append(ss, fnSchemas(rule, "", stringFns(), 30)...)
}

// stringFns return string literals: every printable byte, every escape, escapes next to digits, letters and each other.
func stringFns() []nsrc {
	var vals []string
	for b := 32; b < 127; b++ {
		if b == '"' || b == '\\' {
			continue
		}
		vals = append(vals, string(rune(b)), "a"+string(rune(b)))
	}
	esc := []string{`\n`, `\r`, `\\`, `\"`}
	for _, e := range esc {
		vals = append(vals, e, "a"+e, e+"a", e+e)
		for _, f := range esc {
			vals = append(vals, e+f, e+"0"+f)
		}
		for _, f := range []string{"0", "1", "7", "8", "x", "x41", "n", "r", "t", "\""[:0] + "u", "012", "%d", " "} {
			vals = append(vals, e+f)
		}
	}
	vals = append(vals, "", "é", "日本", "aé\\n", "%d\\n", "%%", "a // b", "/* */", "#", "$", "@", strings.Repeat("long ", 60), "two  spaces", " lead", "trail ", "it's", "a,b", "a;b", "a:b", ".text", "(%rax)", "\\\\0", "\\\\n", "\\\\\\n", "\\\\\\\"")
	var fs []nsrc
	for i, v := range vals {
		_ = i
		fs = append(fs, nsrc{"string " + fmt.Sprintf("%q", v), `fn @() string = "` + v + `"`})
	}
	for n := 1; n <= 130; n++ {
		fs = append(fs, nsrc{fmt.Sprintf("string of %d bytes", n), `fn @() string = "` + strings.Repeat("abcdefg", 20)[:n] + `"`})
	}
	for _, n := range []int{255, 256, 257, 511, 512, 1023, 1024, 4096} {
		fs = append(fs, nsrc{fmt.Sprintf("string of %d bytes", n), `fn @() string = "` + strings.Repeat("abcdefg", 600)[:n] + `"`})
	}
	// literals that differ little must stay different
	for i, g := range [][]string{{"a b", "a  b", "a   b", "ab", " ab", "ab ", " a b", "a b "}, {"", " ", "  "}, {"A", "a"}, {"Abc", "abc", "aBc", "abC"}, {"a_b", "a.b", "a-b", "a b", "a,b", "ab"},
		{`a\nb`, `a\\nb`, `anb`, `a b`, `a\rb`}, {`\"`, `'`, `\\`, `\\\"`}, {"é", "e", "É", "ê"}, {"1", "01", "1.0", "0x1", "+1"}, {"x%d", "x%s", "x%%"},
		{strings.Repeat("x", 200) + "a", strings.Repeat("x", 200) + "b", strings.Repeat("x", 200), strings.Repeat("x", 199)}, {"ab", "ba", "aa", "bb"}, {"a1", "a11", "a111"}, {"日本", "日木", "本日"}} {
		b := ""
		for _, v := range g {
			b += ` uses("` + v + `")`
		}
		for j := len(g) - 1; j >= 0; j-- {
			b += ` uses("` + g[j] + `")`
		}
		fs = append(fs, nsrc{fmt.Sprintf("similar strings %d", i), "fn @() {" + b + " }"})
	}
	fs = append(fs, nsrc{"equal strings", `fn @() { uses("same") uses("same") uses("sam") uses("e") uses("same\n") }`},
		nsrc{"contexts", `fn @() { v := "d" uses(v) v = "e" uses(v) uses(eb() ? "f" : "g") use(cnts(["h", "i"])) use(lens("j") + "k".length) p := ep() p.y = "l" a := esa() a[0] = "m" use(apply(fn(x: int) int = x + lens("n"), 1)) printf("o%d\n", 3) match Cc("p", 1) { case Aa(): uses("q") case Bb(n): uses("r") case Cc(s, m): uses("s") } for i in ea() { uses("t") } while eb() { uses("u") } }`})
	return fs
}

// stringObjects: every static string object carries the string type's read-only header.
func stringObjects(c *Ctx, rule string, s *Schema) {
	r := compileSchema(c, s.Src, nil)
	if r.Und != "" || r.Panic != "" || len(r.Errs) > 0 {
		return // reported by the comparison
	}
	p := asmx.Parse(r.Text)
	img := p.Data()
	for _, e := range img.Errs {
		c.Fail(rule, s.Name, "asm.go", "data section: %s", e)
	}
	ds, err := typeTable(p)
	if err != nil {
		c.Fail(rule, s.Name, "codegen.go", "%v", err)
		return
	}
	for l, at := range img.At {
		v, h, err := img.Str(at + 8)
		if err != nil {
			continue
		}
		if (at+8)%8 != 0 {
			c.Fail(rule, s.Name+"/"+l, "asm.go", "the string object %q is not aligned", v)
			continue
		}
		id := (h >> 1) >> 47 & 0xFFFF
		if h&1 != 1 || (h>>1)&3 != 2 || id >= int64(len(ds)) || ds[id].Tag != 1 {
			c.Fail(rule, s.Name+"/"+l, "asm.go", "the header %#x of string %q is not that of a read-only string", h, v)
			continue
		}
		c.Ok(rule)
	}
}

func init() {
	Registry["C19"] = func(c *Ctx) {
		c.runSchemas(literalSchemas("literal"), cgOpts{Semantics: true})
		_, out := intLiterals()
		forms := []string{"fn main() { x := %s }", "fn f(x: int) int = x\nfn main() { f(1 + %s) }", "fn main() { if 1 < %s { } }", "fn f() int { return %s }\nfn main() {}"}
		c.Parallel(len(out)*len(forms), func(c *Ctx, i int) {
			src := fmt.Sprintf(forms[i%len(forms)], out[i/len(forms)])
			mustReject(c, "out of range literal", src, src)
		})
		ss := fnSchemas("string object", "", stringFns(), 60)
		c.Parallel(len(ss), func(c *Ctx, i int) { stringObjects(c, "string object", ss[i]) })
		c.Min("literal", 1500)
		c.Min("string object", 400)
		c.Min("out of range literal", 150)
	}
}

// mustReject: the compiler diagnoses the program.
func mustReject(c *Ctx, rule, name, src string) {
	r := compileSchema(c, src, nil)
	switch {
	case r.Und != "":
		c.Fail(rule, name, r.Where, "undecided: %s", r.Und)
	case r.Panic != "":
		c.Fail(rule, name, r.Where, "the compiler panics: %s", r.Panic)
	case len(r.Errs) == 0 && len(asmx.Parse(r.Text).Dups) > 0:
		c.Ok(rule) // the assembler refuses two definitions of a symbol (C10: which is reported)
	case len(r.Errs) == 0:
		c.Fail(rule, name, "", "the compiler accepts the program")
	case r.Linked || r.Out != "":
		c.Fail(rule, name, "", "an executable is produced although the program is diagnosed")
	default:
		c.Ok(rule)
		c.Sample(rule, name)
	}
}
