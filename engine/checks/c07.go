package checks

import "strings"

var binaryOps = []struct{ op, operand, result string }{
	{"+", "int", "int"}, {"-", "int", "int"}, {"*", "int", "int"}, {"/", "int", "int"}, {"&", "int", "int"}, {"|", "int", "int"}, {"^", "int", "int"}, {"<<", "int", "int"}, {">>", "int", "int"},
	{"<", "int", "bool"}, {"<=", "int", "bool"}, {">", "int", "bool"}, {">=", "int", "bool"}, {"==", "int", "bool"},
	{"and", "bool", "bool"}, {"or", "bool", "bool"}}

var unaryOps = []struct{ op, operand, result string }{{"-", "int", "int"}, {"~", "int", "int"}, {"not ", "bool", "bool"}}

func init() {
	Registry["C07"] = func(c *Ctx) {
		var bin, res, un, cond, nothing, rng []item
		for _, o := range binaryOps {
			for _, a := range typeUniverse {
				for _, b := range typeUniverse {
					bin = append(bin, item{a + " " + o.op + " " + b, "fn @«T, U»(a: " + a + ", b: " + b + ") { v := a " + o.op + " b }", a == o.operand && b == o.operand})
				}
				res = append(res, item{"result of " + o.op + " as " + a, "fn @«T, U»(a: " + o.operand + ", b: " + o.operand + ") " + a + " = a " + o.op + " b", a == o.result})
				res = append(res, item{"result of nested " + o.op + " as " + a, "fn @«T, U»(a: " + o.operand + ", b: " + o.operand + ", c: " + a + ") { c = (a " + o.op + " b) }", a == o.result})
			}
			e := map[string]string{"int": "1", "bool": "true"}[o.operand]
			nothing = append(nothing,
				item{"nothing " + o.op, "fn @() { v := use(1) " + o.op + " " + e + " }", false},
				item{o.op + " nothing", "fn @() { v := " + e + " " + o.op + " use(1) }", false},
				item{"nothing " + o.op + " nothing", "fn @() { v := use(1) " + o.op + " use(2) }", false},
				item{"function name " + o.op, "fn @() { v := same " + o.op + " " + e + " }", false},
				item{o.op + " type", "fn @() { v := " + e + " " + o.op + " pt }", false},
				item{o.op + " string literal", "fn @() { v := " + e + " " + o.op + ` "s" }`, false},
				item{"string literal " + o.op, `fn @() { v := "s" ` + o.op + " " + e + " }", false},
				item{o.op + " array literal", "fn @() { v := " + e + " " + o.op + ` [1] }`, false},
				item{o.op + " function literal", "fn @() { v := " + e + " " + o.op + ` fn(x: int) int = x }`, false},
				item{o.op + " literals", "fn @() { v := " + e + " " + o.op + " " + e + " }", true},
				item{o.op + " constructor", "fn @() { v := " + e + " " + o.op + ` Pt(1, "s") }`, false})
		}
		// an operator's result as an operand of another
		for _, o := range binaryOps {
			for _, p := range binaryOps {
				ok := o.result == p.operand
				bin = append(bin, item{"(" + o.op + ") " + p.op, "fn @(a: " + o.operand + ", b: " + p.operand + ") { v := (a " + o.op + " a) " + p.op + " b }", ok},
					item{p.op + " (" + o.op + ")", "fn @(a: " + o.operand + ", b: " + p.operand + ") { v := b " + p.op + " (a " + o.op + " a) }", ok})
			}
		}
		for _, o := range unaryOps {
			for _, a := range typeUniverse {
				un = append(un, item{o.op + a, "fn @«T, U»(a: " + a + ") { v := " + o.op + "a }", a == o.operand},
					item{"result of " + o.op + " as " + a, "fn @«T, U»(a: " + o.operand + ") " + a + " = " + o.op + "a", a == o.result},
					item{o.op + "element " + a, "fn @«T, U»(a: []" + a + ") { v := " + o.op + "a[0] }", a == o.operand},
					item{o.op + "call " + a, "fn @«T, U»(a: fn() " + a + ") { v := " + o.op + "a() }", a == o.operand})
			}
			for _, p := range binaryOps {
				un = append(un, item{o.op + "(" + p.op + ")", "fn @(a: " + p.operand + ") { v := " + o.op + "(a " + p.op + " a) }", p.result == o.operand},
					item{"(" + o.op + ") " + p.op, "fn @(a: " + o.operand + ", b: " + p.operand + ") { v := (" + o.op + "a) " + p.op + " b }", o.result == p.operand})
			}
			un = append(un, item{o.op + "nothing", "fn @() { v := " + o.op + "use(1) }", false}, item{o.op + "string literal", "fn @() { v := " + o.op + `"s" }`, false}, item{o.op + "type", "fn @() { v := " + o.op + `pt }`, false},
				item{o.op + "literal", "fn @() { v := " + o.op + map[string]string{"int": "1", "bool": "true"}[o.operand] + ` }`, true}, item{o.op + "other literal", "fn @() { v := " + o.op + map[string]string{"int": "true", "bool": "1"}[o.operand] + ` }`, false})
		}
		for _, a := range typeUniverse {
			cond = append(cond, item{"condition " + a, "fn @«T, U»(a: " + a + ") { v := a ? 1 : 2 }", a == "bool"})
			for _, b := range typeUniverse {
				rng = append(rng, item{a + " .. " + b, "fn @«T, U»(a: " + a + ", b: " + b + ") { for i in a .. b { } }", a == "int" && b == "int"})
			}
			rng = append(rng, item{"range variable as " + a, "fn @«T, U»(a: " + a + ") { for i in 0 .. 2 { a = i } }", a == "int"}, item{a + " .. 0", "fn @«T, U»(a: " + a + ") { for i in a .. 0 { } }", a == "int"})
		}
		rng = append(rng, item{"range as value", "fn @() { v := (1 .. 2) }", false}, item{"range as argument", "fn @() { use(1 .. 2) }", false})
		h := ahdr + argHdr
		c.acceptReject("binary operator", h, bin)
		c.acceptReject("operator result", h, res)
		c.acceptReject("unary operator", h, un)
		c.acceptReject("conditional", h, append(cond, pairItems(armContexts[:1], typeUniverse, nil)...))
		c.acceptReject("conditional result", h, pairItems([]nsrc{{"ternary result", `fn @«T, U»(c: bool, b: $B) $A = c ? b : b`}}, typeUniverse, nil))
		c.acceptReject("other operands", h, nothing)
		c.acceptReject("range", h, rng)
	}
}

var _ = strings.Join
