package checks

import "fmt"

// deepStmts are statement forms repeated to a depth, with variables declared at every level, before and after the nested form.
func deepStmts(group string, thorough bool) []*Template {
	var r []*Template
	max := 7
	if thorough {
		max = 12
	}
	type level struct {
		name string
		mk   func(b *tb, in []*S) *S
	}
	e := func(b *tb) *S { return exprS(b.call(tNothing)) }
	levels := []level{
		{"if", func(b *tb, in []*S) *S { return ifS(b.call(tBool), in) }},
		{"else", func(b *tb, in []*S) *S { return ifS(b.call(tBool), []*S{e(b)}, nil, in) }},
		{"elseif", func(b *tb, in []*S) *S { return ifS(b.call(tBool), []*S{e(b)}, b.call(tBool), in) }},
		{"block", func(b *tb, in []*S) *S { return blockS(in) }},
		{"while", func(b *tb, in []*S) *S { return whileS(b.call(tBool), in) }},
	}
	ts := []*Ty{tString, tInt, tStruct, tIntArr}
	ladder := func(name string, depth int, pick func(d int) level, late bool) {
		b := &tb{}
		var build func(d int) []*S
		build = func(d int) []*S {
			t := ts[d%2*2]
			v := b.local(t)
			body := []*S{das(v, b.call(t)), e(b)}
			if d < depth {
				body = append(body, pick(d).mk(b, build(d+1)))
				body = append(body, e(b))
			}
			if late {
				w := b.local(ts[(d+1)%4])
				body = append(body, das(w, b.call(w.T)), e(b), exprS(b.call(tNothing, local(w), local(v))))
			} else {
				body = append(body, exprS(b.call(tNothing, local(v))))
			}
			return body
		}
		r = append(r, b.done(group, fmt.Sprintf("%s to depth %d late=%v", name, depth, late), tNothing, build(0), nil))
	}
	for d := 1; d <= max; d++ {
		for _, late := range []bool{false, true} {
			for i, l := range levels {
				l := l
				if l.name == "while" && d > 2 {
					continue
				}
				ladder(l.name, d, func(int) level { return l }, late)
				// alternate with the next form, loops at most every fourth level
				n := levels[(i+1)%4]
				m := levels[(i+2)%4]
				ladder(l.name+"/"+n.name+"/"+m.name, d, func(k int) level { return []level{l, n, m, n}[k%4] }, late)
			}
		}
	}
	// many statements of each form in a row, and many variables
	for _, n := range []int{2, 5, 9, 17} {
		for _, l := range levels {
			if l.name != "block" && n > 5 {
				continue
			}
			b := &tb{}
			keep := b.local(tString)
			body := []*S{das(keep, b.call(tString))}
			for i := 0; i < n; i++ {
				v := b.local(ts[i%4])
				body = append(body, l.mk(b, []*S{das(v, b.call(v.T)), e(b), exprS(b.call(tNothing, local(v)))}))
			}
			body = append(body, e(b), exprS(b.call(tNothing, local(keep))))
			r = append(r, b.done(group, fmt.Sprintf("%d times %s in a row", n, l.name), tNothing, body, nil))
		}
	}
	for _, n := range []int{1, 2, 3, 4, 7, 8, 12, 15, 16, 17, 20, 31, 33} {
		for _, mode := range []string{"references", "integers", "mixed"} {
			b := &tb{}
			var body []*S
			var vs []*Var
			for i := 0; i < n; i++ {
				t := tString
				if mode == "integers" || mode == "mixed" && i%3 == 1 {
					t = tInt
				}
				v := b.local(t)
				vs = append(vs, v)
				body = append(body, das(v, b.call(t)))
			}
			body = append(body, e(b))
			for i := n - 1; i >= 0; i-- {
				body = append(body, exprS(b.call(tNothing, local(vs[i]), local(vs[(i*7+3)%n]))))
			}
			body = append(body, exprS(b.call(tInt, b.arg(tString), b.call(tInt, b.arg(tInt), b.call(tString)))))
			r = append(r, b.done(group, fmt.Sprintf("%d variables (%s)", n, mode), tNothing, body, nil))
		}
	}
	for n := 5; n <= 9; n++ {
		for _, els := range []bool{false, true} {
			b := &tb{}
			s := &S{Op: "if"}
			for i := 0; i < n; i++ {
				s.Conds = append(s.Conds, b.call(tBool))
				s.Body = append(s.Body, []*S{exprS(b.call(tNothing))})
			}
			if els {
				s.Conds = append(s.Conds, nil)
				s.Body = append(s.Body, []*S{exprS(b.call(tNothing))})
			}
			r = append(r, b.done(group, fmt.Sprintf("if/%d else=%v", n, els), tNothing, []*S{s, e(b)}, nil))
		}
	}
	return r
}

// initStmts declare a variable from each form of initialiser, then treat it in each way a variable can be treated.
func initStmts(group string) []*Template {
	var r []*Template
	type init struct {
		name string
		t    *Ty
		mk   func(b *tb) *X
	}
	inits := []init{
		{"literal", tString, func(b *tb) *X { return strL("lit") }},
		{"parameter", tString, func(b *tb) *X { return b.arg(tString) }},
		{"call", tString, func(b *tb) *X { return b.call(tString) }},
		{"call with arguments", tString, func(b *tb) *X { return b.call(tString, b.arg(tString), strL("x")) }},
		{"element", tString, func(b *tb) *X { return idxX(b.arg(tStrArr), b.arg(tInt)) }},
		{"element of call", tString, func(b *tb) *X { return idxX(b.call(tStrArr), intL(2)) }},
		{"field", tString, func(b *tb) *X { return dotX(b.arg(tStruct), 8, "y", tString) }},
		{"field of call", tString, func(b *tb) *X { return dotX(b.call(tStruct), 8, "y", tString) }},
		{"ternary of literals", tString, func(b *tb) *X {
			return &X{Op: "ternary", T: tString, K: []*X{b.arg(tBool), strL("a"), strL("b")}}
		}},
		{"ternary of calls", tString, func(b *tb) *X {
			return &X{Op: "ternary", T: tString, K: []*X{b.call(tBool), b.call(tString), b.call(tString)}}
		}},
		{"external call", tString, func(b *tb) *X {
			b.nfn++
			return &X{Op: "call", T: tString, Fn: &Fn{Name: fmt.Sprintf("ext%d", b.nfn), T: &Ty{K: "fn", FnKind: "External", Params: []*Ty{tInt}, Ret: tString}}, K: []*X{b.arg(tInt)}}
		}},
		{"function", tFn, func(b *tb) *X { return &X{Op: "fnref", T: tFn, Fn: b.fn(tInt, tInt)} }},
		{"function parameter", tFn, func(b *tb) *X { return b.arg(tFn) }},
		{"structure call", tStruct, func(b *tb) *X { return b.call(tStruct) }},
		{"structure parameter", tStruct, func(b *tb) *X { return b.arg(tStruct) }},
		{"array call", tIntArr, func(b *tb) *X { return b.call(tIntArr) }},
		{"array parameter", tIntArr, func(b *tb) *X { return b.arg(tIntArr) }},
		{"enum call", tEnum, func(b *tb) *X { return b.call(tEnum) }},
		{"bytes call", tBytes, func(b *tb) *X { return b.call(tBytes) }},
		{"generic call", tParam, func(b *tb) *X { return b.call(tParam) }},
		{"generic parameter", tParam, func(b *tb) *X { return b.arg(tParam) }},
		{"integer literal", tInt, func(b *tb) *X { return intL(4) }},
		{"integer call", tInt, func(b *tb) *X { return b.call(tInt) }},
		{"boolean literal", tBool, func(b *tb) *X { return boolL("true") }},
		{"comparison", tBool, func(b *tb) *X { return bin("opLt", tBool, b.arg(tInt), b.call(tInt)) }},
		{"raw pointer call", tPointer, func(b *tb) *X { return b.call(tPointer) }},
	}
	e := func(b *tb) *S { return exprS(b.call(tNothing)) }
	use := func(b *tb, v *Var) *S { return exprS(b.call(tNothing, local(v))) }
	uses := []struct {
		name string
		mk   func(b *tb, v *Var, in init) []*S
	}{
		{"kept", func(b *tb, v *Var, in init) []*S { return []*S{e(b), use(b, v)} }},
		{"reassigned from a call", func(b *tb, v *Var, in init) []*S { return []*S{asS(local(v), b.call(v.T)), e(b), use(b, v)} }},
		{"reassigned twice", func(b *tb, v *Var, in init) []*S {
			return []*S{e(b), asS(local(v), b.call(v.T)), e(b), asS(local(v), in.mk(b)), e(b), use(b, v)}
		}},
		{"reassigned in a branch", func(b *tb, v *Var, in init) []*S {
			return []*S{ifS(b.call(tBool), []*S{asS(local(v), b.call(v.T)), e(b)}, nil, []*S{e(b)}), e(b), use(b, v)}
		}},
		{"reassigned in a loop", func(b *tb, v *Var, in init) []*S {
			return []*S{whileS(b.call(tBool), []*S{use(b, v), asS(local(v), b.call(v.T)), e(b)}), use(b, v)}
		}},
		{"reassigned from itself", func(b *tb, v *Var, in init) []*S {
			return []*S{asS(local(v), b.call(v.T, local(v), b.call(tInt))), e(b), asS(local(v), local(v)), e(b), use(b, v)}
		}},
		{"copied", func(b *tb, v *Var, in init) []*S {
			w := b.local(v.T)
			return []*S{das(w, local(v)), asS(local(v), b.call(v.T)), e(b), use(b, w), e(b), use(b, v)}
		}},
		{"declared in a branch", func(b *tb, v *Var, in init) []*S {
			w := b.local(v.T)
			return []*S{ifS(b.call(tBool), []*S{das(w, in.mk(b)), e(b), asS(local(w), b.call(v.T)), e(b), use(b, w)}), e(b), use(b, v)}
		}},
		{"as argument around calls", func(b *tb, v *Var, in init) []*S {
			return []*S{exprS(b.call(tNothing, local(v), b.call(tInt), local(v), b.call(tString))), use(b, v)}
		}},
	}
	for _, in := range inits {
		for _, u := range uses {
			b := &tb{}
			v := b.local(in.t)
			body := append([]*S{das(v, in.mk(b))}, u.mk(b, v, in)...)
			r = append(r, b.done(group, in.name+" "+u.name, tNothing, body, nil))
		}
	}
	return r
}

// deepFam nests one expression form in itself to a depth.
func deepFam(thorough bool) []exprFam {
	var r []exprFam
	max := 6
	if thorough {
		max = 12
	}
	for _, f := range exprForms() {
		if f.hole != f.res {
			continue
		}
		for d := 3; d <= max; d++ {
			for _, k := range []byte("lc") {
				f, d, k := f, d, k
				r = append(r, exprFam{fmt.Sprintf("%s repeated %d times of %c", f.name, d, k), func(b *tb) *X {
					x := b.leaf(f.hole, k)
					for i := 0; i < d; i++ {
						x = f.mk(b, x)
					}
					return x
				}})
			}
		}
	}
	// every argument itself a call with as many arguments
	for n := 1; n <= 6; n++ {
		n := n
		ts := []*Ty{tInt, tString, tStruct, tBool, tIntArr, tParam}
		r = append(r, exprFam{fmt.Sprintf("%d arguments, each a call of %d arguments", n, n), func(b *tb) *X {
			var as []*X
			for i := 0; i < n; i++ {
				var in []*X
				for j := 0; j < n; j++ {
					in = append(in, b.leaf2(ts[j], "lck"[(i+j)%3]))
				}
				as = append(as, b.call(ts[i], in...))
			}
			return b.call(tInt, as...)
		}})
	}
	return r
}

// frameSchemas: functions with many variables, each set and used at its own place.
func frameSchemas(rule string, sizes ...int) []*Schema {
	var fs []nsrc
	for _, n := range sizes {
		fs = append(fs,
			nsrc{fmt.Sprintf("%d variables", n), fmt.Sprintf("fn @() { %s %s }", seq(n, "v# := e1()", " "), seq(n, "use(v#)", " "))},
			nsrc{fmt.Sprintf("%d strings and ints", n), fmt.Sprintf("fn @(p: string, q: int) { %s %s uses(p) use(q) }", seq(n/2, "v# := es() w# := q + #", " "), seq(n/2, "uses(v#) use(w#)", " "))},
			nsrc{fmt.Sprintf("%d variables assigned", n), fmt.Sprintf("fn @() { %s %s %s }", seq(n, "v# := #", " "), seq(n, "v# = v# + e1()", " "), seq(n, "use(v#)", " "))})
		if n <= 600 {
			fs = append(fs, nsrc{fmt.Sprintf("%d variables then nested", n), fmt.Sprintf("fn @(k: int) { %s if eb() { %s use(add(v1, add(v0, x%d))) } while eb() { y := es() uses(y) use(v%d) } use(apply(fn(z: int) int = z + v0 + k, v1)) }", seq(n, "v# := e1()", " "), seq(n, "x# := e1() + v#", " "), n-1, n-1)})
		}
	}
	return fnSchemas(rule, "", fs, 1)
}
