package checks

import "fmt"

// tb builds one template.
type tb struct {
	params []*Var
	nfn    int
	fns    []*Fn
	nvar   int
}

func (b *tb) param(t *Ty) *Var {
	v := &Var{Name: fmt.Sprintf("p%d", len(b.params)), T: t, Param: true}
	b.params = append(b.params, v)
	return v
}

// shared parameter of a type, creating at most 6
func (b *tb) arg(t *Ty) *X {
	for _, p := range b.params {
		if p.T == t {
			return local(p)
		}
	}
	if len(b.params) >= 6 {
		return b.call(t)
	}
	return local(b.param(t))
}

func (b *tb) local(t *Ty) *Var {
	b.nvar++
	return &Var{Name: fmt.Sprintf("v%d", b.nvar), T: t}
}

func (b *tb) fn(ret *Ty, params ...*Ty) *Fn {
	b.nfn++
	return &Fn{Name: fmt.Sprintf("g%d", b.nfn), T: &Ty{K: "fn", FnKind: "Normal", Params: params, Ret: ret}}
}

func local(v *Var) *X { return &X{Op: "local", T: v.T, V: v} }

// call of a fresh global function.
func (b *tb) call(ret *Ty, args ...*X) *X {
	var ts []*Ty
	for _, a := range args {
		ts = append(ts, a.T)
	}
	return &X{Op: "call", T: ret, Fn: b.fn(ret, ts...), K: args}
}

func intL(i int64) *X   { return &X{Op: "int", T: tInt, Int: i} }
func boolL(s string) *X { return &X{Op: "bool", T: tBool, Str: s} }
func strL(s string) *X  { return &X{Op: "str", T: tString, Str: "\"" + s + "\""} }
func dotX(l *X, off int64, f string, t *Ty) *X {
	return &X{Op: "dot", T: t, K: []*X{l}, Off: off, Fld: f}
}
func idxX(a, i *X) *X                  { return &X{Op: "index", T: a.T.Elem, K: []*X{a, i}} }
func bin(op string, t *Ty, l, r *X) *X { return &X{Op: op, T: t, K: []*X{l, r}} }

// leaf of a kind: l(ocal), c(all), k(onstant).
func (b *tb) leaf(t *Ty, k byte) *X {
	switch k {
	case 'c':
		return b.call(t)
	case 'k':
		switch t.K {
		case "int":
			return intL(37)
		case "bool":
			return boolL("true")
		case "string":
			return strL("lit")
		}
		return b.call(t)
	}
	return b.arg(t)
}

func (b *tb) done(group, name string, ret *Ty, body []*S, ex *X) *Template {
	var ts []*Ty
	for _, p := range b.params {
		ts = append(ts, p.T)
	}
	return &Template{Name: name, Group: group, Decl: &FnDecl{Fn: &Fn{Name: "F", T: &Ty{K: "fn", FnKind: "Normal", Params: ts, Ret: ret}}, Params: b.params, Body: body, ExprFn: ex}}
}

func ret(x *X) *S         { return &S{Op: "return", X: x} }
func das(v *Var, x *X) *S { return &S{Op: "das", L: local(v), X: x} }
func asS(l, x *X) *S      { return &S{Op: "as", L: l, X: x} }
func exprS(x *X) *S       { return &S{Op: "expr", X: x} }
func ifS(c *X, then []*S, rest ...interface{}) *S {
	s := &S{Op: "if", Conds: []*X{c}, Body: [][]*S{then}}
	for i := 0; i < len(rest); i += 2 {
		var cc *X
		if rest[i] != nil {
			cc = rest[i].(*X)
		}
		s.Conds = append(s.Conds, cc)
		s.Body = append(s.Body, rest[i+1].([]*S))
	}
	return s
}
func whileS(c *X, body []*S) *S { return &S{Op: "while", X: c, Body: [][]*S{body}} }
func blockS(body []*S) *S       { return &S{Op: "block", Body: [][]*S{body}} }

// ctxNames are the positions an expression is analysed in.
var ctxNames = []string{"return", "declare", "exprfn", "stmt", "arg0", "arg1", "arg2", "arg3", "arg4", "arg5", "operand", "arg1.operand", "arg3.operand", "arg5.operand", "ifcond", "whilecond", "assign-local", "assign-elem", "nested-call", "deep-call3", "deep-call4", "deep-call5"}

// inCtx wraps an expression into a function in a context. It returns nil if the context does not apply.
func inCtx(group, name, ctx string, mk func(b *tb) *X) *Template {
	b := &tb{}
	full := name + " in " + ctx
	earlier := func(n int) []*X {
		ts := []*Ty{tStruct, tInt, tString, tBool, tIntArr}
		var r []*X
		for i := 0; i < n; i++ {
			r = append(r, b.arg(ts[i]))
		}
		return r
	}
	operand := func(e *X) *X {
		switch e.T.K {
		case "int":
			return bin("opAdd", tInt, b.arg(tInt), e)
		case "bool":
			return bin("opAnd", tBool, b.arg(tBool), e)
		}
		return bin("opAdd", tInt, b.arg(tInt), b.call(tInt, e))
	}
	var k int
	switch {
	case ctx == "return":
		e := mk(b)
		return b.done(group, full, e.T, []*S{ret(e)}, nil)
	case ctx == "exprfn":
		e := mk(b)
		return b.done(group, full, e.T, nil, e)
	case ctx == "declare":
		e := mk(b)
		if e.T.K == "nothing" {
			return nil
		}
		v := b.local(e.T)
		return b.done(group, full, e.T, []*S{das(v, e), exprS(b.call(tNothing)), ret(local(v))}, nil)
	case ctx == "stmt":
		e := mk(b)
		return b.done(group, full, tNothing, []*S{exprS(b.call(tNothing)), exprS(e), exprS(b.call(tNothing)), ret(nil)}, nil)
	case ctx == "operand":
		e := mk(b)
		if e.T.K == "nothing" {
			return nil
		}
		o := operand(e)
		return b.done(group, full, o.T, []*S{ret(o)}, nil)
	case ctx == "ifcond":
		e := mk(b)
		if e.T.K != "bool" {
			return nil
		}
		return b.done(group, full, tInt, []*S{ifS(e, []*S{ret(b.call(tInt))}), ret(intL(1))}, nil)
	case ctx == "whilecond":
		e := mk(b)
		if e.T.K != "bool" {
			return nil
		}
		return b.done(group, full, tNothing, []*S{whileS(e, []*S{exprS(b.call(tNothing))}), exprS(b.call(tNothing))}, nil)
	case ctx == "assign-local":
		e := mk(b)
		if e.T.K == "nothing" {
			return nil
		}
		v := b.local(e.T)
		w := b.local(e.T)
		return b.done(group, full, e.T, []*S{das(v, b.call(e.T)), das(w, b.call(e.T)), asS(local(v), e), exprS(b.call(tNothing, local(w))), ret(local(v))}, nil)
	case ctx == "assign-elem":
		e := mk(b)
		if e.T.K == "nothing" {
			return nil
		}
		at := &Ty{K: "array", Elem: e.T}
		return b.done(group, full, tNothing, []*S{asS(idxX(b.call(at), b.call(tInt)), e), ret(nil)}, nil)
	case ctx == "nested-call":
		es := earlier(2)
		e := mk(b)
		if e.T.K == "nothing" {
			return nil
		}
		in := b.call(tString, append(earlier(3), e, b.call(tInt))...)
		out := b.call(tInt, append(es, in, b.call(tStruct))...)
		return b.done(group, full, tInt, []*S{ret(out)}, nil)
	}
	if n, _ := fmt.Sscanf(ctx, "deep-call%d", &k); n == 1 { // the argument of a call within four others
		outer := [][]*X{earlier(1), earlier(4), earlier(2), earlier(3)}
		es := earlier(k)
		e := mk(b)
		if e.T.K == "nothing" {
			return nil
		}
		args := append(es, e)
		if k < 5 {
			args = append(args, b.call(tString))
		}
		in := b.call(tInt, args...)
		for i := len(outer) - 1; i >= 0; i-- {
			in = b.call(tInt, append(outer[i], in, b.call(tBool))...)
		}
		return b.done(group, full, tInt, []*S{ret(in)}, nil)
	}
	if n, _ := fmt.Sscanf(ctx, "arg%d.operand", &k); n == 1 && len(ctx) > 5 {
		es := earlier(k)
		e := mk(b)
		if e.T.K == "nothing" {
			return nil
		}
		args := append(es, operand(e))
		if k < 5 {
			args = append(args, b.call(tString))
		}
		c := b.call(tInt, args...)
		return b.done(group, full, tInt, []*S{ret(c)}, nil)
	}
	fmt.Sscanf(ctx, "arg%d", &k)
	es := earlier(k)
	e := mk(b)
	if e.T.K == "nothing" {
		return nil
	}
	args := append(es, e)
	if k < 5 {
		args = append(args, b.call(tString))
	}
	c := b.call(tStruct, args...)
	return b.done(group, full, tStruct, []*S{ret(c)}, nil)
}

type exprFam struct {
	name string
	mk   func(b *tb) *X
}

var intOps = []string{"opAdd", "opSub", "opMul", "opDiv", "opBAnd", "opBOr", "opBXor", "opBLeft", "opBRight"}
var cmpOps = []string{"opGt", "opGte", "opLt", "opLte", "opEq"}
var boolOps = []string{"opAnd", "opOr"}

// operatorFam lists operator expressions over every combination of operand shapes.
func operatorFam() []exprFam {
	var r []exprFam
	kinds := []byte{'l', 'c', 'k'}
	add := func(op string, ot, rt *Ty) {
		for _, a := range kinds {
			for _, c := range kinds {
				a, c, op := a, c, op
				r = append(r, exprFam{fmt.Sprintf("%s(%c,%c)", op, a, c), func(b *tb) *X {
					l := b.leaf(ot, a)
					return bin(op, rt, l, b.leaf2(ot, c))
				}})
			}
		}
	}
	for _, op := range intOps {
		add(op, tInt, tInt)
	}
	for _, op := range cmpOps {
		add(op, tInt, tBool)
	}
	for _, op := range boolOps {
		add(op, tBool, tBool)
	}
	un := func(op string, t *Ty) {
		for _, a := range kinds {
			a := a
			r = append(r, exprFam{fmt.Sprintf("%s(%c)", op, a), func(b *tb) *X { return &X{Op: op, T: t, K: []*X{b.leaf(t, a)}} }})
		}
	}
	un("opNot", tBool)
	un("opNeg", tInt)
	un("opBNot", tInt)
	for _, t := range []*Ty{tInt, tString, tBool} {
		for _, k := range []string{"lll", "ccc", "clk", "lcl", "llc", "kcc"} {
			t, k := t, k
			r = append(r, exprFam{fmt.Sprintf("ternary:%s(%s)", t.K, k), func(b *tb) *X {
				return &X{Op: "ternary", T: t, K: []*X{b.leaf(tBool, k[0]), b.leaf(t, k[1]), b.leaf2(t, k[2])}}
			}})
		}
	}
	// operators over operators
	for _, o := range intOps {
		o := o
		r = append(r, exprFam{"nested:" + o, func(b *tb) *X {
			return bin(o, tInt, bin(o, tInt, b.arg(tInt), b.call(tInt)), bin(o, tInt, b.call(tInt), b.leaf2(tInt, 'l')))
		}})
	}
	return r
}

// leaf2 is a second operand: a different variable than leaf's.
func (b *tb) leaf2(t *Ty, k byte) *X {
	if k != 'l' {
		if k == 'k' && t.K == "int" {
			return intL(-5)
		}
		if k == 'k' && t.K == "bool" {
			return boolL("false")
		}
		return b.leaf(t, k)
	}
	n := 0
	for _, p := range b.params {
		if p.T == t {
			n++
			if n == 2 {
				return local(p)
			}
		}
	}
	if len(b.params) >= 6 {
		return b.call(t)
	}
	return local(b.param(t))
}

// accessFam lists field and element reads.
func accessFam() []exprFam {
	var r []exprFam
	for _, k := range []byte{'l', 'c'} {
		for i, f := range tStruct.Fields {
			k, i, f := k, i, f
			r = append(r, exprFam{fmt.Sprintf("field %s(%c)", f.Name, k), func(b *tb) *X { return dotX(b.leaf(tStruct, k), int64(8*i), f.Name, f.T) }})
		}
		for _, ki := range []byte{'l', 'c', 'k'} {
			for _, at := range []*Ty{tIntArr, tStrArr} {
				k, ki, at := k, ki, at
				r = append(r, exprFam{fmt.Sprintf("element %s(%c,%c)", at.Elem.K, k, ki), func(b *tb) *X { return idxX(b.leaf(at, k), b.leaf(tInt, ki)) }})
			}
		}
	}
	nest := &Ty{K: "struct", Name: "outer", Fields: []Field{{"a", tInt}, {"inner", tStruct}, {"arr", tStrArr}}}
	r = append(r,
		exprFam{"field of field", func(b *tb) *X { return dotX(dotX(b.arg(nest), 8, "inner", tStruct), 8, "y", tString) }},
		exprFam{"element of field", func(b *tb) *X { return idxX(dotX(b.arg(nest), 16, "arr", tStrArr), b.arg(tInt)) }},
		exprFam{"element at element", func(b *tb) *X { return idxX(b.arg(tStrArr), idxX(b.arg(tIntArr), b.arg(tInt))) }},
		exprFam{"element at sum", func(b *tb) *X { return idxX(b.arg(tIntArr), bin("opAdd", tInt, b.call(tInt), b.arg(tInt))) }},
		exprFam{"length", func(b *tb) *X { return dotX(b.leaf(tIntArr, 'c'), 0, "length", tInt) }},
	)
	return r
}

// callFam lists calls: argument counts, shapes, callee kinds.
func callFam() []exprFam {
	var r []exprFam
	ts := []*Ty{tInt, tStruct, tBool, tString, tIntArr, tParam}
	for n := 0; n <= 6; n++ {
		for sp := -1; sp < n; sp++ {
			n, sp := n, sp
			r = append(r, exprFam{fmt.Sprintf("call/%d nested at %d", n, sp), func(b *tb) *X {
				var as []*X
				for i := 0; i < n; i++ {
					k := byte('l')
					if i == sp {
						k = 'c'
					} else if i%3 == 2 {
						k = 'k'
					}
					as = append(as, b.leaf2(ts[i], k))
				}
				return b.call(tInt, as...)
			}})
		}
		n := n
		r = append(r, exprFam{fmt.Sprintf("call/%d all nested", n), func(b *tb) *X {
			var as []*X
			for i := 0; i < n; i++ {
				as = append(as, b.call(ts[i]))
			}
			return b.call(tString, as...)
		}})
		for _, rt := range []*Ty{tInt, tString, tNothing, tBool} {
			rt := rt
			for _, sp := range []int{-1, n - 1} {
				sp := sp
				ext := func(raw, variadic bool) func(b *tb) *X {
					return func(b *tb) *X {
						var as []*X
						var pts []*Ty
						for i := 0; i < n; i++ {
							t := []*Ty{tString, tInt, tIntArr, tBytes, tInt, tPointer}[i]
							k := byte('l')
							if i == sp {
								k = 'c'
							}
							as = append(as, b.leaf2(t, k))
							pts = append(pts, t)
						}
						b.nfn++
						return &X{Op: "call", T: rt, Fn: &Fn{Name: fmt.Sprintf("ext%d", b.nfn), T: &Ty{K: "fn", FnKind: "External", Params: pts, Ret: rt, Raw: raw, Variadic: variadic}}, K: as}
					}
				}
				r = append(r, exprFam{fmt.Sprintf("external/%d:%s nested at %d", n, rt.K, sp), ext(false, false)})
				r = append(r, exprFam{fmt.Sprintf("raw external/%d:%s nested at %d", n, rt.K, sp), ext(true, false)})
				if rt == tInt {
					r = append(r, exprFam{fmt.Sprintf("variadic/%d nested at %d", n, sp), ext(true, true)})
				}
			}
		}
	}
	// raw call with a call after every conversion
	r = append(r, exprFam{"raw external, later argument allocates", func(b *tb) *X {
		f := &Fn{Name: "extz", T: &Ty{K: "fn", FnKind: "External", Params: []*Ty{tString, tInt, tIntArr, tInt}, Ret: tInt, Raw: true}}
		return &X{Op: "call", T: tInt, Fn: f, K: []*X{b.call(tString), b.call(tInt), b.call(tIntArr), b.call(tInt)}}
	}})
	for n := 0; n <= 4; n++ {
		n := n
		mkArgs := func(b *tb, k byte) (as []*X, pts []*Ty) {
			for i := 0; i < n; i++ {
				as = append(as, b.leaf2(ts[i], k))
				pts = append(pts, ts[i])
			}
			return
		}
		for _, k := range []byte{'l', 'c'} {
			k := k
			r = append(r, exprFam{fmt.Sprintf("call of variable/%d(%c)", n, k), func(b *tb) *X {
				ft := &Ty{K: "fn", FnKind: "Normal", Ret: tString}
				v := b.param(ft)
				as, pts := mkArgs(b, k)
				ft.Params = pts
				return &X{Op: "call", T: tString, K: append([]*X{local(v)}, as...)}
			}})
		}
	}
	r = append(r,
		exprFam{"function reference", func(b *tb) *X { return b.call(tInt, &X{Op: "fnref", T: tFn, Fn: b.fn(tInt, tInt)}, b.call(tInt)) }},
		exprFam{"call of call of call", func(b *tb) *X {
			return b.call(tInt, b.arg(tString), b.call(tInt, b.arg(tInt), b.call(tInt, b.arg(tStruct), b.arg(tInt), b.call(tInt))))
		}},
		exprFam{"array literal builder", func(b *tb) *X { return &X{Op: "wrap", T: tIntArr, K: []*X{b.call(tIntArr, b.arg(tInt), b.call(tInt))}} }},
	)
	return r
}

func litFam() []exprFam {
	var r []exprFam
	for _, i := range []int64{0, 1, -1, 2147483647, -2147483648, 2147483648, -2147483649, 1<<62 - 1, -(1 << 62), 1 << 40} {
		i := i
		r = append(r, exprFam{fmt.Sprintf("literal %d", i), func(b *tb) *X { return intL(i) }})
	}
	r = append(r, exprFam{"true", func(b *tb) *X { return boolL("true") }}, exprFam{"false", func(b *tb) *X { return boolL("false") }},
		exprFam{"string", func(b *tb) *X { return strL("abc") }}, exprFam{"string2", func(b *tb) *X { return b.call(tInt, strL("abc"), strL("d\\n"), strL("abc")) }})
	return r
}

// stmtTemplates lists statement forms.
func stmtTemplates(group string) []*Template {
	var r []*Template
	add := func(name string, ret *Ty, mk func(b *tb) []*S) {
		b := &tb{}
		body := mk(b)
		r = append(r, b.done(group, name, ret, body, nil))
	}
	eff := func(b *tb) []*S { return []*S{exprS(b.call(tNothing))} }
	conds := func(b *tb, n int, kind string) []*X {
		var cs []*X
		for i := 0; i < n; i++ {
			switch kind {
			case "c":
				cs = append(cs, b.call(tBool))
			case "l":
				if i < 4 {
					cs = append(cs, local(b.param(tBool)))
				} else {
					cs = append(cs, b.call(tBool))
				}
			case "cmp":
				cs = append(cs, bin("opLt", tBool, b.arg(tInt), b.call(tInt)))
			}
		}
		return cs
	}
	for n := 1; n <= 4; n++ {
		for _, els := range []bool{false, true} {
			for _, kind := range []string{"c", "l", "cmp"} {
				n, els, kind := n, els, kind
				add(fmt.Sprintf("if/%d else=%v cond=%s", n, els, kind), tInt, func(b *tb) []*S {
					cs := conds(b, n, kind)
					s := &S{Op: "if"}
					for i := range cs {
						s.Conds = append(s.Conds, cs[i])
						s.Body = append(s.Body, eff(b))
					}
					if els {
						s.Conds = append(s.Conds, nil)
						s.Body = append(s.Body, eff(b))
					}
					return []*S{exprS(b.call(tNothing)), s, exprS(b.call(tNothing)), ret(b.call(tInt))}
				})
				add(fmt.Sprintf("if/%d returning else=%v cond=%s", n, els, kind), tInt, func(b *tb) []*S {
					cs := conds(b, n, kind)
					s := &S{Op: "if"}
					for i := range cs {
						s.Conds = append(s.Conds, cs[i])
						s.Body = append(s.Body, []*S{ret(intL(int64(i + 10)))})
					}
					if els {
						s.Conds = append(s.Conds, nil)
						s.Body = append(s.Body, []*S{ret(b.call(tInt))})
						return []*S{s}
					}
					return []*S{s, ret(intL(99))}
				})
			}
		}
	}
	add("while", tInt, func(b *tb) []*S { return []*S{whileS(b.call(tBool), eff(b)), ret(b.call(tInt))} })
	add("while local condition", tNothing, func(b *tb) []*S {
		v := b.local(tBool)
		return []*S{das(v, b.call(tBool)), whileS(local(v), []*S{asS(local(v), b.call(tBool))}), exprS(b.call(tNothing, local(v)))}
	})
	add("while counter", tInt, func(b *tb) []*S {
		v := b.local(tInt)
		return []*S{das(v, intL(0)), whileS(bin("opLt", tBool, local(v), b.arg(tInt)), []*S{exprS(b.call(tNothing, local(v))), asS(local(v), bin("opAdd", tInt, local(v), intL(1)))}), ret(local(v))}
	})
	add("while with return", tInt, func(b *tb) []*S {
		return []*S{whileS(b.call(tBool), []*S{ifS(b.call(tBool), []*S{ret(b.call(tInt))}), exprS(b.call(tNothing))}), ret(intL(0))}
	})
	add("nested while", tNothing, func(b *tb) []*S {
		return []*S{whileS(b.call(tBool), []*S{exprS(b.call(tNothing)), whileS(b.call(tBool), eff(b)), exprS(b.call(tNothing))}), exprS(b.call(tNothing))}
	})
	add("while in if in while", tNothing, func(b *tb) []*S {
		return []*S{whileS(b.call(tBool), []*S{ifS(b.call(tBool), []*S{whileS(b.call(tBool), eff(b))}, nil, eff(b))}), ret(nil)}
	})
	add("empty bodies", tNothing, func(b *tb) []*S {
		return []*S{ifS(b.call(tBool), nil, b.call(tBool), []*S(nil), nil, []*S(nil)), whileS(b.call(tBool), nil), exprS(b.call(tNothing))}
	})
	// scopes
	for _, t := range []*Ty{tString, tInt, tStruct, tParam} {
		t := t
		add("branch local "+t.K, tNothing, func(b *tb) []*S {
			v, w, x := b.local(t), b.local(t), b.local(t)
			return []*S{
				das(x, b.call(t)),
				ifS(b.call(tBool), []*S{das(v, b.call(t)), exprS(b.call(tNothing)), exprS(b.call(tNothing, local(v)))},
					nil, []*S{das(w, b.call(t)), exprS(b.call(tNothing)), exprS(b.call(tNothing, local(w), local(x)))}),
				exprS(b.call(tNothing)), exprS(b.call(tNothing, local(x)))}
		})
		add("nested scopes "+t.K, tNothing, func(b *tb) []*S {
			v, w, x, y := b.local(t), b.local(t), b.local(t), b.local(t)
			return []*S{
				das(x, b.call(t)),
				blockS([]*S{das(v, b.call(t)), blockS([]*S{das(w, b.call(t)), exprS(b.call(tNothing, local(w), local(v)))}), exprS(b.call(tNothing)), exprS(b.call(tNothing, local(v)))}),
				exprS(b.call(tNothing)),
				das(y, b.call(t)),
				blockS([]*S{exprS(b.call(tNothing))}),
				exprS(b.call(tNothing)),
				exprS(b.call(tNothing, local(x), local(y)))}
		})
		add("sibling scopes "+t.K, tNothing, func(b *tb) []*S {
			v, w, x := b.local(t), b.local(t), b.local(t)
			return []*S{
				das(x, b.call(t)),
				blockS([]*S{das(v, b.call(t)), exprS(b.call(tNothing, local(v)))}),
				exprS(b.call(tNothing)),
				blockS([]*S{das(w, b.call(t)), exprS(b.call(tNothing)), exprS(b.call(tNothing, local(w)))}),
				exprS(b.call(tNothing)), exprS(b.call(tNothing, local(x)))}
		})
		add("loop local "+t.K, tNothing, func(b *tb) []*S {
			v, x := b.local(t), b.local(t)
			return []*S{
				das(x, b.call(t)),
				whileS(b.call(tBool), []*S{exprS(b.call(tNothing)), das(v, b.call(t)), exprS(b.call(tNothing)), exprS(b.call(tNothing, local(v), local(x)))}),
				exprS(b.call(tNothing)), exprS(b.call(tNothing, local(x)))}
		})
		add("scope in loop then local "+t.K, tNothing, func(b *tb) []*S {
			v, x, y := b.local(t), b.local(t), b.local(t)
			return []*S{
				ifS(b.call(tBool), []*S{das(v, b.call(t)), exprS(b.call(tNothing, local(v)))}),
				das(x, b.call(t)),
				ifS(b.call(tBool), []*S{das(y, b.call(t)), exprS(b.call(tNothing, local(y)))}),
				exprS(b.call(tNothing)),
				exprS(b.call(tNothing, local(x)))}
		})
		add("reassigned "+t.K, tNothing, func(b *tb) []*S {
			v := b.local(t)
			return []*S{das(v, b.call(t)), exprS(b.call(tNothing)), asS(local(v), b.call(t)), exprS(b.call(tNothing)), exprS(b.call(tNothing, local(v)))}
		})
		add("parameters kept "+t.K, tNothing, func(b *tb) []*S {
			p, q, r := b.param(t), b.param(tInt), b.param(t)
			return []*S{exprS(b.call(tNothing)), asS(local(p), b.call(t)), exprS(b.call(tNothing)), exprS(b.call(tNothing, local(r), local(q), local(p)))}
		})
	}
	// assignments
	for _, k := range []string{"ll", "lc", "cl", "cc"} {
		for _, t := range []*Ty{tString, tInt, tStruct} {
			k, t := k, t
			add(fmt.Sprintf("field assignment %s %s", t.K, k), tNothing, func(b *tb) []*S {
				return []*S{asS(dotX(b.leaf(tStruct, k[0]), 8, "y", t), b.leaf2(t, k[1])), exprS(b.call(tNothing))}
			})
			for _, ki := range []byte{'l', 'c', 'k'} {
				ki := ki
				add(fmt.Sprintf("element assignment %s %s%c", t.K, k, ki), tNothing, func(b *tb) []*S {
					return []*S{asS(idxX(b.leaf(&Ty{K: "array", Elem: t}, k[0]), b.leaf(tInt, ki)), b.leaf2(t, k[1])), exprS(b.call(tNothing))}
				})
			}
		}
	}
	add("nested field assignment", tNothing, func(b *tb) []*S {
		return []*S{asS(dotX(dotX(b.call(tStruct), 16, "z", tStruct), 8, "y", tString), b.call(tString)), exprS(b.call(tNothing))}
	})
	add("element of field assignment", tNothing, func(b *tb) []*S {
		return []*S{asS(idxX(dotX(b.call(tStruct), 16, "z", tStrArr), b.call(tInt)), b.call(tString)), exprS(b.call(tNothing))}
	})
	add("sequence", tInt, func(b *tb) []*S {
		v := b.local(tInt)
		return []*S{exprS(b.call(tNothing)), das(v, b.call(tInt)), asS(dotX(b.arg(tStruct), 0, "x", tInt), local(v)), exprS(b.call(tNothing, local(v))),
			asS(local(v), bin("opMul", tInt, local(v), b.arg(tInt))), asS(dotX(b.arg(tStruct), 16, "z", tInt), local(v)), ret(dotX(b.arg(tStruct), 0, "x", tInt))}
	})
	add("bare return", tNothing, func(b *tb) []*S { return []*S{exprS(b.call(tNothing)), ret(nil)} })
	add("fall off the end", tNothing, func(b *tb) []*S { return []*S{exprS(b.call(tNothing))} })
	add("empty", tNothing, func(b *tb) []*S { return nil })
	add("return in branch then fall off", tNothing, func(b *tb) []*S {
		return []*S{ifS(b.call(tBool), []*S{exprS(b.call(tNothing)), ret(nil)}), exprS(b.call(tNothing))}
	})
	add("if ending function", tNothing, func(b *tb) []*S {
		return []*S{ifS(b.call(tBool), []*S{ret(nil)}, nil, []*S{ret(nil)})}
	})
	add("while ending function", tNothing, func(b *tb) []*S {
		return []*S{whileS(b.call(tBool), []*S{exprS(b.call(tNothing)), ret(nil)})}
	})
	for n := 0; n <= 6; n++ {
		n := n
		add(fmt.Sprintf("frame of %d parameters", n), tNothing, func(b *tb) []*S {
			ts := []*Ty{tString, tInt, tStruct, tBool, tIntArr, tParam}
			var as []*X
			for i := 0; i < n; i++ {
				as = append(as, local(b.param(ts[i])))
			}
			v := b.local(tString)
			return []*S{exprS(b.call(tNothing)), das(v, b.call(tString)), exprS(b.call(tNothing, as...)), exprS(b.call(tNothing, local(v)))}
		})
	}
	// exits of functions called from C
	ext := *r[0].Decl
	ext.ExtRet = true
	r = append(r, &Template{Name: "external return", Group: group, Decl: &ext})
	b := &tb{}
	e2 := b.done(group, "external return fall off", tNothing, []*S{exprS(b.call(tNothing))}, nil)
	e2.Decl.ExtRet = true
	r = append(r, e2)
	b = &tb{}
	e3 := b.done(group, "external return expression fn", tInt, nil, b.call(tInt))
	e3.Decl.ExtRet = true
	r = append(r, e3)
	return r
}
