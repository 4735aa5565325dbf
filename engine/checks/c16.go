package checks

import (
	"fmt"
	"strings"
	"unicode"
	"verif/engine/ai"

	"golang.org/x/tools/go/ssa"
)

type refTok struct {
	kind   string
	lo, hi int
	line   int
}

var keywordKinds = map[string]string{"fn": "Fn", "return": "Return", "if": "If", "elseif": "ElseIf", "else": "Else", "true": "True", "false": "False", "not": "Not", "and": "And", "or": "Or", "struct": "Struct", "while": "While", "for": "For", "in": "In", "enum": "Enum", "match": "Match", "case": "Case", "type": "Type"}

var singleKinds = map[rune]string{'(': "LParen", ')': "RParen", '{': "LBrace", '}': "RBrace", '[': "LBrack", ']': "RBrack", '«': "LGmet", '»': "RGmet", '#': "Hash", '?': "Question", ',': "Comma", '+': "Plus", '-': "Min", '*': "Mul", '~': "BNot", '^': "BXor", '|': "BOr", '&': "BAnd"}

var doubleKinds = []struct {
	first rune
	next  map[rune]string
	alone string
}{
	{':', map[rune]string{'=': "Das"}, "Colon"},
	{'>', map[rune]string{'>': "BRight", '=': "Gte"}, "Gt"},
	{'<', map[rune]string{'<': "BLeft", '=': "Lte"}, "Lt"},
	{'.', map[rune]string{'.': "DotDot"}, "Dot"},
	{'=', map[rune]string{'=': "Eq"}, "As"},
}

// refLex is the language's tokenisation of an abstract text; undecided character classes are partitioned by m.
func refLex(m *ai.Machine, s *ai.RuneStr) []refTok {
	var ts []refTok
	i, off, line := 0, 0, 1
	has := func(k int) bool { return k < len(s.C) }
	is := func(k int, r rune) bool { return has(k) && m.CharIs(s.C[k], r) }
	letter := func(k int) bool {
		return has(k) && (m.CharPred("unicode.IsLetter", s.C[k], unicode.IsLetter) || is(k, '_'))
	}
	digit := func(k int) bool { return has(k) && m.CharPred("unicode.IsDigit", s.C[k], unicode.IsDigit) }
	among := func(k int, set string) bool {
		for _, r := range set {
			if is(k, r) {
				return true
			}
		}
		return false
	}
	emit := func(kind string, n int) {
		hi := off
		nl := 0
		for k := i; k < i+n; k++ {
			hi += s.C[k].W
			if kind == "EOL" && is(k, '\n') {
				nl++
			}
		}
		ts = append(ts, refTok{kind, off, hi, line})
		i, off, line = i+n, hi, line+nl
	}
	fail := func() []refTok { return append(ts, refTok{kind: "Err"}) }
next:
	for has(i) {
		if is(i, ' ') {
			n := 1
			for is(i+n, ' ') {
				n++
			}
			emit("Space", n)
			continue
		}
		for _, r := range []rune("(){}[]«»#?,+-*~^|&") {
			if is(i, r) {
				emit(singleKinds[r], 1)
				continue next
			}
		}
		for _, d := range doubleKinds {
			if is(i, d.first) {
				for _, r := range []rune("=<>.") {
					if k, ok := d.next[r]; ok && is(i+1, r) {
						emit(k, 2)
						continue next
					}
				}
				emit(d.alone, 1)
				continue next
			}
		}
		switch {
		case is(i, '\r') || is(i, '\n'):
			emit("EOL", 1)
		case is(i, '/'):
			if !is(i+1, '/') {
				emit("Div", 1)
				break
			}
			n := 2
			for has(i+n) && !among(i+n, "\r\n") {
				n++
			}
			emit("Comment", n)
		case is(i, '"'):
			n := 1
			for {
				if !has(i+n) || among(i+n, "\r\n") {
					return fail()
				}
				if is(i+n, '"') {
					break
				}
				if is(i+n, '\\') {
					n++
					if !among(i+n, "rn\\\"") {
						return fail()
					}
				} else if s.C[i+n] == ai.BadByte() {
					return fail()
				}
				n++
			}
			emit("String", n+1)
		case is(i, '0'):
			n := 1
			if is(i+1, 'x') {
				n = 2
				for digit(i+n) || among(i+n, "abcdefABCDEF") {
					n++
				}
				if n == 2 {
					return fail()
				}
			} else if digit(i + 1) {
				return fail()
			}
			emit("Integer", n)
		case among(i, "123456789"):
			n := 1
			for digit(i + n) {
				n++
			}
			emit("Integer", n)
		case letter(i):
			n := 1
			for letter(i+n) || digit(i+n) {
				n++
			}
			if has(i+n) && !among(i+n, "( :,)\r\n.+-*/><[]«»") {
				return fail()
			}
			kind := "Identifier"
			for _, w := range keywordList {
				if len(w) != n {
					continue
				}
				eq := true
				for k, r := range w {
					if !is(i+k, r) {
						eq = false
						break
					}
				}
				if eq {
					kind = keywordKinds[w]
					break
				}
			}
			emit(kind, n)
		default:
			return fail()
		}
	}
	return append(ts, refTok{"EOF", off, off, line})
}

var keywordList = []string{"fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type"}

// lexTokens interprets the lexer on an abstract text.
func lexTokens(m *ai.Machine, lexFn, next *ssa.Function, s *ai.RuneStr, limit int) ([]ai.Value, bool) {
	lx := m.Call(lexFn, []ai.Value{s, "f.clara"})
	var ts []ai.Value
	kinds := tokenKinds(m.P)
	for len(ts) <= limit {
		t := m.Call(next, []ai.Value{lx})
		if _, ok := t.(ai.Nil); ok {
			return ts, false
		}
		ts = append(ts, t)
		k, _ := m.Get(t, "Kind").(int64)
		if k == kinds["EOF"] || k == kinds["Err"] {
			return ts, true
		}
	}
	return ts, false
}

func init() {
	tableMins["C16"] = map[string]int{"tokens": 20000, "distinct kinds": 40, "ends": 20000}
	Registry["C16"] = func(c *Ctx) {
		p := c.P
		lexFn, next := p.FuncIn(p.Lex, "Lex"), p.FuncIn(p.Lex, "Lexer.NextToken")
		if lexFn == nil || next == nil {
			panic(AnchorError{"lex.Lex/Lexer.NextToken"})
		}
		kinds := tokenKinds(p)
		byVal := map[int64]string{}
		need := []string{"EOF", "Err", "EOL", "Space", "Comment", "Identifier", "String", "Integer", "Div"}
		for _, k := range singleKinds {
			need = append(need, k)
		}
		for _, k := range keywordKinds {
			need = append(need, k)
		}
		for _, d := range doubleKinds {
			need = append(need, d.alone)
			for _, k := range d.next {
				need = append(need, k)
			}
		}
		for _, k := range need {
			v, ok := kinds[k]
			if !ok {
				panic(AnchorError{"lex." + k})
			}
			c.Check(byVal[v] == "", "distinct kinds", k, "lex/lex.go", "token kinds %s and %s have the same value", k, byVal[v])
			byVal[v] = k
		}
		type item struct {
			prefix string
			any    int
		}
		var items []item
		n := 2
		if c.Thorough {
			for _, s := range []string{"a", "\"", "/", "0", "1", " ", "<", ".", "\n", "\"\\", "//"} {
				items = append(items, item{s, 3})
			}
		}
		for r := rune(0); r < 0x80; r++ {
			items = append(items, item{string(r), n})
		}
		ctx := []string{"", "é", "«", "»", "日", "𝒳", "😀", "\xff", "\u00a0", "٣", "a\n", "a\r\n", "\n\n", "// c\n", "\"s\"\n", "ab", "a1", "a_", "_a", "a9", "é1", "aé", "12", "1٣", "10", "0x", "0xA", "0x1", "0xf9", "00", "01", "0b", "0X", "0x_", "0xg", "  ", "//", "//a", "//é", "//\"", "// ", "/*", "/=", "\"a", "\"é", "\"\\", "\"\\n", "\"\\r", "\"\\\"", "\"\\\\", "\"\\t", "\"\\0", "\"\"", "\"a\"", "\" ", "\"\xff", "//\xff", "a\xff", "\"//", "\"\\\\\"", ":=", "==", ">>", "<<", "..", ">=", "<=", "...", "===", ">>>", ":==", "a.b", "a.", "1.", "1..", "1..2", "a:=", "f(", "x[", "a:", "- ", "-1", "a-", "-", "a<", "a>", "1a", "1_", "x1y", "\"a\"b", "a\"", "a=", "a{", "a?", "a«", "T»", "#[", "\t", "!", "@", "$", "%", ";", "'", "`", "\\", "\u2028", "\u00e0\u0301", "fn fn", "true false", "fn(", "if(", "not(", "else{", "inn", "fnn", "Fn", "FN", "iff", "orx", "_fn", "fn_", "fn1", "types", "typ", "e", "els", "elsei", "elseif ", "else if", "a b", "a  b", "a//", "a/", "a/b", "\ufeff", "\ufffd", "\"\ufffd"}
		for _, s := range ctx {
			items = append(items, item{s, n})
		}
		for _, k := range keywordList {
			items = append(items, item{k, 2}, item{k[:len(k)-1], 2}, item{k + " " + k, 1}, item{"(" + k + ")", 1}, item{strings.ToUpper(k[:1]) + k[1:], 1})
		}
		// long tokens: the scanner's state does not depend on how much it has consumed
		for _, s := range []string{strings.Repeat("abcdefghij", 30), strings.Repeat("1234567890", 30), "0x" + strings.Repeat("0123456789abcdefABCDEF", 15), "\"" + strings.Repeat("é日a\\n", 60), "//" + strings.Repeat("é日a\\q\"", 60), strings.Repeat(" ", 300), strings.Repeat("\n", 70) + "a", strings.Repeat("(", 300), strings.Repeat("a b\n", 100)} {
			items = append(items, item{s, 1})
		}
		c.Parallel(len(items), func(c *Ctx, i int) {
			it := items[i]
			bad := map[string]bool{}
			cnt := 0
			nt, ok := ai.Explore(p, 3000000, func(m *ai.Machine) {
				m.Covered, m.Edges = c.Funcs, c.Blocks
				m.EagerGo, m.EvalStringer, m.MaxSteps = true, true, 2000000
			}, func(m *ai.Machine) {
				m.InitGlobals()
				s := ai.RunesOf(it.prefix)
				for k := 0; k < it.any; k++ {
					if m.Choose("end", 2) == 0 {
						break
					}
					w := m.Choose("width", 5)
					if w == 4 {
						s.C = append(s.C, ai.BadByte())
						continue
					}
					s.C = append(s.C, m.AnyChar(fmt.Sprintf("c%d", k), w+1))
				}
				rep := func(rule, f string, a ...interface{}) {
					k := rule + fmt.Sprintf(f, a...)
					if !bad[k] && len(bad) < 20 {
						bad[k] = true
						c.Fail(rule, fmt.Sprintf("%q followed by %s", it.prefix, yesPath(m)), m.Where(), "%s", fmt.Sprintf(f, a...))
					}
				}
				defer func() {
					if x := recover(); x != nil {
						if ap, ok := x.(ai.AbsPanic); ok {
							rep("ends", "tokenising panics: %s (%s)", ai.Show(ap.V), ap.Site)
							return
						}
						panic(x)
					}
				}()
				ts, ended := lexTokens(m, lexFn, next, s, s.Len()+2)
				cnt++
				if !ended {
					rep("ends", "the token sequence does not end with EOF or an error after %d tokens", len(ts))
					return
				}
				c.Ok("ends")
				want := refLex(m, s)
				for k := 0; k < len(ts) || k < len(want); k++ {
					if k >= len(ts) || k >= len(want) {
						rep("tokens", "%d tokens instead of %d", len(ts), len(want))
						return
					}
					w := want[k]
					kv, ok := m.Get(ts[k], "Kind").(int64)
					if !ok {
						rep("tokens", "token %d has an undecided kind", k)
						return
					}
					if kv != kinds[w.kind] {
						rep("tokens", "token %d is %s instead of %s", k, byVal[kv], w.kind)
						return
					}
					if w.kind == "Err" {
						break
					}
					txt := m.Get(ts[k], "Val")
					if !sameText(m, txt, s, w.lo, w.hi) {
						rep("tokens", "token %d (%s) carries the text %s instead of the source from byte %d to %d", k, w.kind, ai.Show(txt), w.lo, w.hi)
						return
					}
					if m.HasField(ts[k], "Line") {
						if l, _ := m.Get(ts[k], "Line").(int64); l != int64(w.line) {
							rep("tokens", "token %d (%s) is on line %d instead of %d", k, w.kind, l, w.line)
							return
						}
					}
				}
				c.Ok("tokens")
			}, func(m *ai.Machine, a ai.Abort) {
				k := a.Reason
				if !bad[k] && len(bad) < 20 {
					bad[k] = true
					c.Fail("ends", fmt.Sprintf("%q followed by %s", it.prefix, yesPath(m)), m.Where(), "tokenising is not seen to end: %s", a.Reason)
				}
			})
			c.Traces += nt
			if !ok {
				c.Fail("ends", it.prefix, "", "partitions not exhausted after %d", nt)
			}
			c.Sample("tokens", fmt.Sprintf("%q and %d unknown characters: %d partitions", it.prefix, it.any, cnt))
		})
	}
}

func sameText(m *ai.Machine, v ai.Value, s *ai.RuneStr, lo, hi int) bool {
	var got *ai.RuneStr
	switch v := v.(type) {
	case *ai.RuneStr:
		got = v
	case string:
		if ai.HasHole(v) {
			return false
		}
		got = ai.RunesOf(v)
	default:
		return false
	}
	var want []ai.AChar
	off := 0
	for _, ch := range s.C {
		if off >= lo && off+ch.W <= hi {
			want = append(want, ch)
		}
		off += ch.W
	}
	if len(got.C) != len(want) {
		return false
	}
	for i := range want {
		a, b := got.C[i], want[i]
		if a == b {
			continue
		}
		// a known text for unknown characters decided to be it
		r, ok := a.R.(int64)
		if !ok || a.W != b.W || !m.CharIs(b, rune(r)) {
			return false
		}
	}
	return true
}

// yesPath shows the affirmative decisions of the partition.
func yesPath(m *ai.Machine) string {
	var r []string
	for _, x := range strings.Split(m.PathString(), "; ") {
		if strings.HasSuffix(x, "=0") && !strings.HasPrefix(x, "width") {
			continue
		}
		r = append(r, strings.TrimSuffix(x, "=1"))
	}
	return strings.Join(r, "; ")
}
