package checks

var cgAssume = []string{
	"the processor semantics of asmx (System V ABI, two's-complement 64-bit words) and GNU as's reading of the emitted text",
	"callees obey the ABI and the collector-word convention; loaded words of declared type have that type's representation",
	"expression children behave as leaves of their type (induction over the expression's structure); loop bodies are compared for two iterations of the same emitted code",
}

func init() {
	Registry["C01"] = func(c *Ctx) {
		c.runFam("operator", operatorFam(), ctxNames, cgOpts{Semantics: true})
		c.runStmts(operatorStmts("operator"), cgOpts{Semantics: true})
		c.runFam("operator on constant", constFam(), []string{"return", "arg4"}, cgOpts{Semantics: true})
		c.runFam("nested expression", composedFam(c.Thorough), []string{"return"}, cgOpts{Semantics: true})
		c.runFam("deep expression", deepFam(c.Thorough), []string{"return", "arg2"}, cgOpts{Semantics: true})
		c.Min("deep expression", 200)
		c.Min("operator", 3000)
		c.Min("operator on constant", 2000)
		c.Min("nested expression", 700)
	}
	docs["C01"] = doc{"For every operator, operand shape (variable, call, constant) and enclosing position, the code the generator emits (obtained by abstract interpretation of codegen's SSA) is interpreted over abstract words and its result, effects and effect order must equal the operator's definition on every path.", cgAssume}

	Registry["C02"] = func(c *Ctx) {
		o := cgOpts{Semantics: true}
		c.runFam("call", callFam(), ctxNames, o)
		args := []string{"arg1", "arg2", "arg3", "arg4", "arg5", "arg1.operand", "arg3.operand", "arg5.operand", "nested-call"}
		c.runFam("argument", append(append(operatorFam(), accessFam()...), litFam()...), args, o)
		c.runStmts(valueCallTemplates("value call"), o)
		c.runFam("nested argument", composedFam(c.Thorough), []string{"arg3", "assign-elem"}, o)
		c.runFam("deep argument", deepFam(c.Thorough), []string{"arg3", "nested-call"}, o)
		c.Min("deep argument", 200)
		c.Min("nested argument", 1500)
		c.Min("call", 1500)
		c.Min("argument", 1200)
		c.Min("value call", 10)
	}
	docs["C02"] = doc{"For every argument count, argument shape, callee kind (Clara, C, raw C, variadic, function value) and enclosing position, the emitted code must place each argument's value in its register at the call, evaluate left to right once, align the stack, preserve the caller's variables and use the callee's result; every operator and access nested in a later argument must leave earlier arguments unchanged.", cgAssume}

	Registry["C03"] = func(c *Ctx) {
		c.runStmts(stmtTemplates("statement"), cgOpts{Semantics: true})
		c.runStmts(composedStmts("nested statement", c.Thorough), cgOpts{Semantics: true})
		c.runStmts(deepStmts("deep statement", c.Thorough), cgOpts{Semantics: true})
		c.runStmts(initStmts("variable"), cgOpts{Semantics: true})
		c.runSchemas(frameSchemas("large frame", 70, 300, 1100), cgOpts{Semantics: true})
		c.Min("large frame", 10)
		c.Min("deep statement", 150)
		c.Min("variable", 200)
		c.Min("statement", 140)
		c.Min("nested statement", 2000)
	}
	docs["C03"] = doc{"For every statement form (if chains up to four conditions, while, nested loops and branches, declarations, assignments to variables, fields and elements, returns) the emitted code must perform the same calls and stores in the same order with the same values on every path, and leave by the right exit.", cgAssume}

	Registry["C04"] = func(c *Ctx) {
		o := cgOpts{Roots: true}
		fams := append(append(append(operatorFam(), accessFam()...), callFam()...), litFam()...)
		c.runFam("expression", fams, ctxNames, o)
		c.runStmts(stmtTemplates("statement"), o)
		c.runStmts(valueCallTemplates("value call"), o)
		c.runFam("nested expression", composedFam(c.Thorough), []string{"arg2", "declare", "assign-elem"}, o)
		c.runStmts(composedStmts("nested statement", c.Thorough), o)
		c.runStmts(deepStmts("deep statement", c.Thorough), o)
		c.runStmts(initStmts("variable"), o)
		c.runFam("deep expression", deepFam(c.Thorough), []string{"arg2", "declare"}, o)
		ss := append(append(closureSchemas("function value"), placeSchemas("object")...), forSchemas("for")...)
		c.runSchemas(append(append(ss, scopeSchemas("scope")...), matchSchemas("match")...), cgOpts{Semantics: true, Roots: true})
		one := 3
		if c.Thorough {
			one = 1
		}
		c.runSchemas(grammarSchemas("composition", 2, one, "statement"), cgOpts{Semantics: true, Roots: true})
		c.Min("composition", 1000)
		c.runSchemas(frameSchemas("large frame", 70, 300, 600), cgOpts{Semantics: true, Roots: true})
		c.Min("large frame", 10)
		c.runSchemas(valuesOfTypes("value of every type"), cgOpts{Semantics: true, Roots: true})
		c.Min("value of every type", 250)
		if p, lib := libProgram(c, "library code", libMain); p != nil {
			compareProg(c, &Schema{Name: "library", Rule: "library code"}, cgOpts{Semantics: true, Roots: true, NoRoots: collectorFns(lib), NoCollect: noCollect(lib)}, p, lib, lib.Decls)
		}
		c.Min("deep statement", 150)
		c.Min("variable", 200)
		c.Min("deep expression", 200)
		c.Min("function value", 800)
		c.Min("match", 80)
		c.Min("for", 300)
		c.Min("object", 100)
		c.Min("library code", 60)
		c.Min("expression", 6000)
		c.Min("nested expression", 2000)
		c.Min("nested statement", 2000)
		c.Min("statement", 140)
	}
	docs["C04"] = doc{"At every call followed by a collector word in the code emitted for every expression and statement form in every position, each frame word that holds an object reference and is read later must be in the emitted root map, and each listed word must be initialised, in scope and hold an object reference.", cgAssume}
}

func (c *Ctx) runFam(group string, fams []exprFam, ctxs []string, o cgOpts) {
	var tps []*Template
	for _, f := range fams {
		for _, cx := range ctxs {
			if tp := inCtx(group, f.name, cx, f.mk); tp != nil {
				tps = append(tps, tp)
			}
		}
	}
	c.runStmts(tps, o)
}

func (c *Ctx) runStmts(tps []*Template, o cgOpts) {
	c.Parallel(len(tps), func(c *Ctx, i int) { runTemplate(c, tps[i], o) })
}

// operatorStmts are operators in statement positions.
func operatorStmts(group string) []*Template {
	var r []*Template
	b := &tb{}
	r = append(r, b.done(group, "conditions of operators", tInt, []*S{
		ifS(bin("opAnd", tBool, bin("opLt", tBool, b.arg(tInt), b.call(tInt)), &X{Op: "opNot", T: tBool, K: []*X{b.call(tBool)}}), []*S{ret(bin("opSub", tInt, intL(3), b.arg(tInt)))}),
		ret(&X{Op: "opNeg", T: tInt, K: []*X{bin("opDiv", tInt, b.arg(tInt), b.call(tInt))}})}, nil))
	return r
}

// valueCallTemplates are calls of function values, which only the runtime's dispatcher makes: as whole statements with variables and fields as arguments.
func valueCallTemplates(group string) []*Template {
	var r []*Template
	ts := []*Ty{tInt, tStruct, tBool, tString, tIntArr, tParam}
	for n := 0; n <= 6; n++ {
		for _, kind := range []string{"variable", "field"} {
			for _, last := range []bool{false, true} {
				b := &tb{}
				ft := &Ty{K: "fn", FnKind: "Normal", Ret: tNothing}
				cl := &Ty{K: "struct", Name: "clo", Fields: []Field{{"f", ft}, {"env", tStruct}}}
				var callee, env *X
				var pre []*S
				if kind == "variable" {
					v := b.local(ft)
					pre = []*S{das(v, b.call(ft))}
					callee = local(v)
				} else {
					v := b.local(cl)
					pre = []*S{das(v, b.call(cl))}
					callee = dotX(local(v), 0, "f", ft)
					env = dotX(local(v), 8, "env", tStruct)
				}
				var as []*X
				for i := 0; i < n; i++ {
					if i == 0 && env != nil {
						as = append(as, env)
					} else {
						as = append(as, local(b.param(ts[i])))
					}
					ft.Params = append(ft.Params, as[i].T)
				}
				body := append(pre, exprS(&X{Op: "call", T: tNothing, K: append([]*X{callee}, as...)}))
				name := kind
				if !last {
					body = append(body, exprS(b.call(tNothing)))
				} else {
					name += ", last"
				}
				tp := b.done(group, name+"/"+string(rune('0'+n)), tNothing, body, nil)
				r = append(r, tp)
			}
		}
	}
	return r
}
