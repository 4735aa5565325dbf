// Package clara is an independent front end for Clara source: schemata and the runtime library.
package clara

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Tok is a token; Kind is the name of the language's token kind.
type Tok struct {
	Kind string
	Val  string
	Line int
}

var keywords = map[string]string{"fn": "Fn", "return": "Return", "if": "If", "elseif": "ElseIf", "else": "Else", "true": "True", "false": "False",
	"not": "Not", "and": "And", "or": "Or", "struct": "Struct", "while": "While", "for": "For", "in": "In", "enum": "Enum",
	"match": "Match", "case": "Case", "type": "Type"}

var punct = []struct{ s, k string }{
	{":=", "Das"}, {">>", "BRight"}, {">=", "Gte"}, {"<<", "BLeft"}, {"<=", "Lte"}, {"..", "DotDot"}, {"==", "Eq"},
	{"(", "LParen"}, {")", "RParen"}, {"{", "LBrace"}, {"}", "RBrace"}, {"[", "LBrack"}, {"]", "RBrack"}, {"«", "LGmet"}, {"»", "RGmet"},
	{"#", "Hash"}, {"?", "Question"}, {",", "Comma"}, {":", "Colon"}, {"+", "Plus"}, {"-", "Min"}, {"*", "Mul"}, {"~", "BNot"}, {"^", "BXor"},
	{"|", "BOr"}, {"&", "BAnd"}, {">", "Gt"}, {"<", "Lt"}, {".", "Dot"}, {"=", "As"}, {"/", "Div"}}

// Lex splits text into tokens without blanks and comments, ending in EOF.
func Lex(src string) ([]Tok, error) {
	var ts []Tok
	line := 1
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		switch {
		case r == '\n':
			line++
			i++
			continue
		case r == ' ' || r == '\r' || r == '\t':
			i++
			continue
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		case r == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' && src[j] != '\n' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) || src[j] != '"' {
				return append(ts, Tok{"Err", "unclosed string", line}), fmt.Errorf("%d: unclosed string", line)
			}
			ts = append(ts, Tok{"String", src[i : j+1], line})
			i = j + 1
			continue
		case r == '_' || unicode.IsLetter(r):
			j := i
			for j < len(src) {
				r, w := utf8.DecodeRuneInString(src[j:])
				if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
					break
				}
				j += w
			}
			k := "Identifier"
			if kw, ok := keywords[src[i:j]]; ok {
				k = kw
			}
			ts = append(ts, Tok{k, src[i:j], line})
			i = j
			continue
		case r >= '0' && r <= '9':
			j := i + 1
			if r == '0' && j < len(src) && src[j] == 'x' {
				j++
				for j < len(src) && strings.IndexByte("0123456789abcdefABCDEF", src[j]) >= 0 {
					j++
				}
			} else {
				for j < len(src) && src[j] >= '0' && src[j] <= '9' {
					j++
				}
			}
			ts = append(ts, Tok{"Integer", src[i:j], line})
			i = j
			continue
		}
		found := false
		for _, p := range punct {
			if strings.HasPrefix(src[i:], p.s) {
				ts = append(ts, Tok{p.k, p.s, line})
				i += len(p.s)
				found = true
				break
			}
		}
		if !found {
			return append(ts, Tok{"Err", "character", line}), fmt.Errorf("%d: character %q", line, src[i:i+w])
		}
	}
	return append(ts, Tok{"EOF", "", line}), nil
}

// Type is a written type.
type Type struct {
	K      string // named array fn
	Name   string
	Args   []*Type
	Elem   *Type
	Params []*Type
	Ret    *Type
}

func (t *Type) String() string {
	if t == nil {
		return "nothing"
	}
	switch t.K {
	case "array":
		return "[]" + t.Elem.String()
	case "fn":
		var ps []string
		for _, p := range t.Params {
			ps = append(ps, p.String())
		}
		return "fn(" + strings.Join(ps, ", ") + ") " + t.Ret.String()
	}
	if len(t.Args) > 0 {
		var ps []string
		for _, p := range t.Args {
			ps = append(ps, p.String())
		}
		return t.Name + "«" + strings.Join(ps, ", ") + "»"
	}
	return t.Name
}

// Expr: id int bool str call mcall dot index arrlit fnlit ternary type, or an operator name (opAdd ...).
type Expr struct {
	Op    string
	Val   string
	K     []*Expr
	TArgs []*Type
	Fn    *Decl
	Type  *Type
	Line  int
}

// Stmt: expr das as return if while for match.
type Stmt struct {
	Op    string
	X, L  *Expr
	To    *Expr // range end
	Name  string
	Conds []*Expr
	Body  [][]*Stmt
	Cases []Case
	Line  int
}

type Case struct {
	Cons string
	Vars []string
	Body []*Stmt
}

type Param struct {
	Name string
	T    *Type
}

// Decl: fn struct enum.
type Decl struct {
	Op      string
	Name    string
	Attrs   []string
	TParams []string
	Params  []Param // parameters or fields
	Ret     *Type
	Body    []*Stmt
	Expr    *Expr
	Extern  bool
	Cons    []*Decl
	Line    int
	File    string
}

type parser struct {
	ts []Tok
	i  int
}

type perr struct{ error }

// Parse reads a file of declarations.
func Parse(src, file string) (ds []*Decl, err error) {
	ts, err := Lex(src)
	if err != nil {
		return nil, fmt.Errorf("%s:%v", file, err)
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				err = fmt.Errorf("%s:%v", file, e.error)
				return
			}
			panic(r)
		}
	}()
	p := &parser{ts: ts}
	for !p.is("EOF") {
		d := p.decl()
		d.File = file
		ds = append(ds, d)
	}
	return ds, nil
}

func (p *parser) is(k string) bool { return p.ts[p.i].Kind == k }
func (p *parser) next() Tok {
	t := p.ts[p.i]
	if p.i < len(p.ts)-1 {
		p.i++
	}
	return t
}
func (p *parser) accept(k string) bool {
	if p.is(k) {
		p.next()
		return true
	}
	return false
}
func (p *parser) need(k string) Tok {
	if !p.is(k) {
		panic(perr{fmt.Errorf("%d: found %q, expected %s", p.ts[p.i].Line, p.ts[p.i].Val, k)})
	}
	return p.next()
}

func (p *parser) tparams() []string {
	var r []string
	if p.accept("LGmet") {
		for more := !p.is("RGmet"); more; more = p.accept("Comma") {
			r = append(r, p.need("Identifier").Val)
		}
		p.need("RGmet")
	}
	return r
}

func (p *parser) decl() *Decl {
	var attrs []string
	if p.accept("Hash") {
		p.need("LBrack")
		for {
			attrs = append(attrs, p.need("Identifier").Val)
			if !p.accept("Comma") {
				break
			}
		}
		p.need("RBrack")
	}
	d := &Decl{Attrs: attrs, Line: p.ts[p.i].Line}
	switch {
	case p.accept("Fn"):
		d.Op = "fn"
		d.Name = p.need("Identifier").Val
		p.fn(d)
	case p.accept("Struct"):
		d.Op = "struct"
		d.Name = p.need("Identifier").Val
		d.TParams = p.tparams()
		p.need("LBrace")
		for !p.accept("RBrace") {
			d.Params = append(d.Params, p.param())
		}
	case p.accept("Enum"):
		d.Op = "enum"
		d.Name = p.need("Identifier").Val
		d.TParams = p.tparams()
		p.need("LBrace")
		for !p.accept("RBrace") {
			c := &Decl{Op: "cons", Name: p.need("Identifier").Val, Line: p.ts[p.i].Line}
			c.Params = p.params()
			d.Cons = append(d.Cons, c)
		}
	default:
		panic(perr{fmt.Errorf("%d: declaration expected", p.ts[p.i].Line)})
	}
	return d
}

func (p *parser) fn(d *Decl) {
	d.TParams = p.tparams()
	d.Params = p.params()
	if p.is("Fn") || p.is("LBrack") || p.is("Identifier") {
		d.Ret = p.typ()
	}
	switch {
	case p.is("LBrace"):
		d.Body = p.block()
		if d.Body == nil {
			d.Body = []*Stmt{}
		}
	case p.accept("As"):
		d.Expr = p.expr(0)
	default:
		d.Extern = true
	}
}

func (p *parser) params() []Param {
	var r []Param
	p.need("LParen")
	if !p.is("RParen") {
		for {
			r = append(r, p.param())
			if !p.accept("Comma") {
				break
			}
		}
	}
	p.need("RParen")
	return r
}

func (p *parser) param() Param {
	n := p.need("Identifier").Val
	p.need("Colon")
	return Param{n, p.typ()}
}

func (p *parser) typ() *Type {
	switch {
	case p.accept("LBrack"):
		p.need("RBrack")
		return &Type{K: "array", Elem: p.typ()}
	case p.accept("Fn"):
		t := &Type{K: "fn"}
		p.need("LParen")
		if !p.is("RParen") {
			for {
				t.Params = append(t.Params, p.typ())
				if !p.accept("Comma") {
					break
				}
			}
		}
		p.need("RParen")
		if p.is("Fn") || p.is("LBrack") || p.is("Identifier") {
			t.Ret = p.typ()
		}
		return t
	}
	t := &Type{K: "named", Name: p.need("Identifier").Val}
	if p.is("LGmet") {
		t.Args = p.targs()
	}
	return t
}

func (p *parser) targs() []*Type {
	var r []*Type
	p.need("LGmet")
	for more := !p.is("RGmet"); more; more = p.accept("Comma") {
		r = append(r, p.typ())
	}
	p.need("RGmet")
	return r
}

func (p *parser) block() []*Stmt {
	var r []*Stmt
	p.need("LBrace")
	for !p.accept("RBrace") {
		r = append(r, p.stmt())
	}
	return r
}

func exprStart(k string) bool {
	switch k {
	case "Identifier", "Integer", "String", "True", "False", "Not", "Min", "BNot", "LParen", "LBrack", "Fn":
		return true
	}
	return false
}

func (p *parser) stmt() *Stmt {
	s := &Stmt{Line: p.ts[p.i].Line}
	switch {
	case p.accept("Return"):
		s.Op = "return"
		if exprStart(p.ts[p.i].Kind) {
			s.X = p.expr(0)
		}
	case p.accept("While"):
		s.Op = "while"
		s.X = p.expr(0)
		s.Body = [][]*Stmt{p.block()}
	case p.accept("For"):
		s.Op = "for"
		s.Name = p.need("Identifier").Val
		p.need("In")
		s.X = p.expr(0)
		if p.accept("DotDot") {
			s.To = p.expr(0)
		}
		s.Body = [][]*Stmt{p.block()}
	case p.accept("If"):
		s.Op = "if"
		s.Conds = append(s.Conds, p.expr(0))
		s.Body = append(s.Body, p.block())
		for p.accept("ElseIf") {
			s.Conds = append(s.Conds, p.expr(0))
			s.Body = append(s.Body, p.block())
		}
		if p.accept("Else") {
			s.Conds = append(s.Conds, nil)
			s.Body = append(s.Body, p.block())
		}
	case p.accept("Match"):
		s.Op = "match"
		s.X = p.expr(0)
		p.need("LBrace")
		for !p.accept("RBrace") {
			p.need("Case")
			c := Case{Cons: p.need("Identifier").Val}
			p.need("LParen")
			if !p.is("RParen") {
				for {
					c.Vars = append(c.Vars, p.need("Identifier").Val)
					if !p.accept("Comma") {
						break
					}
				}
			}
			p.need("RParen")
			p.need("Colon")
			for !p.is("Case") && !p.is("RBrace") {
				c.Body = append(c.Body, p.stmt())
			}
			s.Cases = append(s.Cases, c)
		}
	default:
		x := p.expr(0)
		switch {
		case p.accept("As"):
			s.Op, s.L = "as", x
			s.X = p.expr(0)
		case p.accept("Das"):
			s.Op, s.L = "das", x
			s.X = p.expr(0)
		default:
			s.Op, s.X = "expr", x
		}
	}
	return s
}

// binding powers of the language definition
var binary = map[string]struct {
	p  int
	op string
}{
	"Or": {1, "opOr"}, "And": {2, "opAnd"}, "BOr": {3, "opBOr"}, "BXor": {4, "opBXor"}, "BAnd": {5, "opBAnd"},
	"Eq": {6, "opEq"}, "Gt": {7, "opGt"}, "Gte": {7, "opGte"}, "Lt": {7, "opLt"}, "Lte": {7, "opLte"},
	"BLeft": {8, "opBLeft"}, "BRight": {8, "opBRight"}, "Plus": {9, "opAdd"}, "Min": {9, "opSub"}, "Mul": {10, "opMul"}, "Div": {10, "opDiv"},
}

func (p *parser) expr(min int) *Expr {
	x := p.unary()
	for {
		k := p.ts[p.i].Kind
		if k == "Question" && min <= 0 {
			line := p.next().Line
			a := p.expr(0)
			p.need("Colon")
			x = &Expr{Op: "ternary", K: []*Expr{x, a, p.expr(0)}, Line: line}
			continue
		}
		b, ok := binary[k]
		if !ok || b.p <= min {
			return x
		}
		t := p.next()
		x = &Expr{Op: b.op, Val: t.Val, K: []*Expr{x, p.expr(b.p)}, Line: t.Line}
	}
}

func (p *parser) unary() *Expr {
	t := p.ts[p.i]
	op := map[string]string{"Not": "opNot", "Min": "opNeg", "BNot": "opBNot"}[t.Kind]
	if op != "" {
		p.next()
		return &Expr{Op: op, K: []*Expr{p.unary()}, Line: t.Line}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	x := &Expr{Val: t.Val, Line: t.Line}
	switch t.Kind {
	case "Identifier":
		x.Op = "id"
	case "Integer":
		x.Op = "int"
	case "String":
		x.Op = "str"
	case "True", "False":
		x.Op = "bool"
	case "LParen":
		x = p.expr(0)
		p.need("RParen")
	case "LBrack":
		x.Op = "arrlit"
		if !p.is("RBrack") {
			for {
				x.K = append(x.K, p.expr(0))
				if !p.accept("Comma") {
					break
				}
			}
		}
		p.need("RBrack")
	case "Fn":
		x.Op = "fnlit"
		x.Fn = &Decl{Op: "fn", Name: "fn", Line: t.Line}
		p.fn(x.Fn)
	case "Type":
		x.Op = "type"
		p.need("LParen")
		x.Type = p.typ()
		p.need("RParen")
	default:
		panic(perr{fmt.Errorf("%d: found %q, expected expression", t.Line, t.Val)})
	}
	return x
}

func (p *parser) args() []*Expr {
	var r []*Expr
	p.need("LParen")
	if !p.is("RParen") {
		for {
			r = append(r, p.expr(0))
			if !p.accept("Comma") {
				break
			}
		}
	}
	p.need("RParen")
	return r
}

func (p *parser) postfix(x *Expr) *Expr {
	for {
		t := p.ts[p.i]
		switch t.Kind {
		case "LParen":
			x = &Expr{Op: "call", K: append([]*Expr{x}, p.args()...), Line: t.Line}
		case "LGmet":
			ts := p.targs()
			x = &Expr{Op: "call", K: append([]*Expr{x}, p.args()...), TArgs: ts, Line: t.Line}
		case "LBrack":
			// an array literal may start the next statement only on a new line; an index is on the same line
			p.next()
			i := p.expr(0)
			p.need("RBrack")
			x = &Expr{Op: "index", K: []*Expr{x, i}, Line: t.Line}
		case "Dot":
			p.next()
			f := p.need("Identifier").Val
			var ts []*Type
			if p.is("LGmet") {
				ts = p.targs()
			}
			if p.is("LParen") {
				x = &Expr{Op: "mcall", Val: f, K: append([]*Expr{x}, p.args()...), TArgs: ts, Line: t.Line}
			} else {
				x = &Expr{Op: "dot", Val: f, K: []*Expr{x}, Line: t.Line}
			}
		default:
			return x
		}
	}
}
