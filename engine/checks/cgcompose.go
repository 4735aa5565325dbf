package checks

import "fmt"

// exprForm is an expression with one hole.
type exprForm struct {
	name string
	hole *Ty
	res  *Ty
	mk   func(b *tb, h *X) *X
}

// exprForms lists every expression form with every hole position.
func exprForms() []exprForm {
	var r []exprForm
	add := func(name string, hole, res *Ty, mk func(b *tb, h *X) *X) {
		r = append(r, exprForm{name, hole, res, mk})
	}
	binf := func(op string, ot, rt *Ty) {
		add(op+"(_,l)", ot, rt, func(b *tb, h *X) *X { return bin(op, rt, h, b.arg(ot)) })
		add(op+"(l,_)", ot, rt, func(b *tb, h *X) *X { return bin(op, rt, b.arg(ot), h) })
	}
	for _, op := range []string{"opSub", "opDiv", "opBLeft", "opMul", "opBXor"} {
		binf(op, tInt, tInt)
	}
	add("opSub(c,_)", tInt, tInt, func(b *tb, h *X) *X { return bin("opSub", tInt, b.call(tInt), h) })
	add("opSub(_,c)", tInt, tInt, func(b *tb, h *X) *X { return bin("opSub", tInt, h, b.call(tInt)) })
	binf("opLt", tInt, tBool)
	binf("opEq", tInt, tBool)
	binf("opAnd", tBool, tBool)
	binf("opOr", tBool, tBool)
	un := func(op string, t *Ty) { add(op, t, t, func(b *tb, h *X) *X { return &X{Op: op, T: t, K: []*X{h}} }) }
	un("opNot", tBool)
	un("opNeg", tInt)
	un("opBNot", tInt)
	for _, t := range []*Ty{tInt, tString} {
		t := t
		add("ternary condition:"+t.K, tBool, t, func(b *tb, h *X) *X { return &X{Op: "ternary", T: t, K: []*X{h, b.call(t), b.arg(t)}} })
		add("ternary then:"+t.K, t, t, func(b *tb, h *X) *X { return &X{Op: "ternary", T: t, K: []*X{b.arg(tBool), h, b.call(t)}} })
		add("ternary else:"+t.K, t, t, func(b *tb, h *X) *X { return &X{Op: "ternary", T: t, K: []*X{b.call(tBool), b.arg(t), h}} })
	}
	for _, t := range []*Ty{tInt, tString, tBool, tStruct} {
		t := t
		add("only argument:"+t.K, t, tInt, func(b *tb, h *X) *X { return b.call(tInt, h) })
		add("second argument:"+t.K, t, tString, func(b *tb, h *X) *X { return b.call(tString, b.arg(tStruct), h) })
		add("third of five arguments:"+t.K, t, tInt, func(b *tb, h *X) *X {
			return b.call(tInt, b.arg(tString), b.arg(tInt), h, b.call(tString), b.arg(tInt))
		})
		add("first argument, call later:"+t.K, t, tStruct, func(b *tb, h *X) *X { return b.call(tStruct, h, b.call(tString), b.call(tInt)) })
	}
	for _, t := range []*Ty{tInt, tString} {
		t := t
		add("raw argument:"+t.K, t, tInt, func(b *tb, h *X) *X {
			b.nfn++
			return &X{Op: "call", T: tInt, Fn: &Fn{Name: fmt.Sprintf("ext%d", b.nfn), T: &Ty{K: "fn", FnKind: "External", Params: []*Ty{tString, t, tInt}, Ret: tInt, Raw: true}}, K: []*X{b.arg(tString), h, b.call(tInt)}}
		})
	}
	for _, a := range []*Ty{tIntArr, tStrArr} {
		a := a
		add("indexed by:"+a.Elem.K, tInt, a.Elem, func(b *tb, h *X) *X { return idxX(b.call(a), h) })
		add("indexed:"+a.Elem.K, a, a.Elem, func(b *tb, h *X) *X { return idxX(h, b.call(tInt)) })
		add("array argument:"+a.Elem.K, tInt, a, func(b *tb, h *X) *X { return b.call(a, b.arg(a), h) })
	}
	add("field:int", tStruct, tInt, func(b *tb, h *X) *X { return dotX(h, 16, "z", tInt) })
	add("field:string", tStruct, tString, func(b *tb, h *X) *X { return dotX(h, 8, "y", tString) })
	return r
}

// composedFam is every expression form inside every expression form, with every kind of leaf.
func composedFam(thorough bool) []exprFam {
	var r []exprFam
	fs := exprForms()
	kinds := "lc"
	if thorough {
		kinds = "lck"
	}
	for _, o := range fs {
		for _, i := range fs {
			if o.hole != i.res {
				continue
			}
			for _, k := range []byte(kinds) {
				o, i, k := o, i, k
				r = append(r, exprFam{fmt.Sprintf("%s of %s of %c", o.name, i.name, k), func(b *tb) *X { return o.mk(b, i.mk(b, b.leaf(i.hole, k))) }})
			}
		}
	}
	return r
}

// constFam has every operator with constants that invite special treatment.
func constFam() []exprFam {
	var r []exprFam
	vals := []int64{0, 1, -1, 2, -2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 62, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 1024, -8, -128, 1 << 20, 1<<31 - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1<<32 - 1, 1 << 32, 1 << 40, 1<<61 - 1, 1 << 61, 1<<62 - 1, -(1 << 62)}
	do := func(op string, rt *Ty) {
		for _, v := range vals {
			for _, side := range []string{"left", "right"} {
				op, v, side := op, v, side
				r = append(r, exprFam{fmt.Sprintf("%s with constant %d %s", op, v, side), func(b *tb) *X {
					if side == "left" {
						return bin(op, rt, intL(v), b.arg(tInt))
					}
					return bin(op, rt, b.arg(tInt), intL(v))
				}})
			}
		}
	}
	for _, op := range intOps {
		do(op, tInt)
	}
	for _, op := range cmpOps {
		do(op, tBool)
	}
	for _, v := range vals {
		v := v
		for _, op := range []string{"opNeg", "opBNot"} {
			op := op
			r = append(r, exprFam{fmt.Sprintf("%s of constant %d", op, v), func(b *tb) *X { return &X{Op: op, T: tInt, K: []*X{intL(v)}} }})
		}
	}
	for _, op := range boolOps {
		for _, v := range []string{"true", "false"} {
			for _, k := range []byte{'l', 'c'} {
				op, v, k := op, v, k
				r = append(r, exprFam{fmt.Sprintf("%s(%s,%c)", op, v, k), func(b *tb) *X { return bin(op, tBool, boolL(v), b.leaf(tBool, k)) }})
				r = append(r, exprFam{fmt.Sprintf("%s(%c,%s)", op, k, v), func(b *tb) *X { return bin(op, tBool, b.leaf(tBool, k), boolL(v)) }})
			}
		}
	}
	// both operands the same variable, both constants
	for _, op := range append(append([]string{}, intOps...), cmpOps...) {
		op := op
		rt := tInt
		for _, c := range cmpOps {
			if c == op {
				rt = tBool
			}
		}
		r = append(r, exprFam{op + " of one variable with itself", func(b *tb) *X { return bin(op, rt, b.arg(tInt), b.arg(tInt)) }})
		for _, p := range [][2]int64{{7, 2}, {-7, 2}, {7, -2}, {-1, 1}, {1 << 61, 2}, {0, 5}} {
			p := p
			r = append(r, exprFam{fmt.Sprintf("%s of %d and %d", op, p[0], p[1]), func(b *tb) *X { return bin(op, rt, intL(p[0]), intL(p[1])) }})
		}
	}
	return r
}

// sform is a statement pattern: a small grammar of statement trees.
type sform struct {
	name string
	mk   func(b *tb, rt *Ty) []*S
}

// composedStmts is every statement form inside every statement form, with what may precede, follow and end it.
func composedStmts(group string, thorough bool) []*Template {
	E := sform{"E", func(b *tb, rt *Ty) []*S { return []*S{exprS(b.call(tNothing))} }}
	R := sform{"R", func(b *tb, rt *Ty) []*S {
		if rt == tNothing {
			return []*S{ret(nil)}
		}
		return []*S{ret(b.call(rt))}
	}}
	D := sform{"D", func(b *tb, rt *Ty) []*S {
		v := b.local(tString)
		return []*S{das(v, b.call(tString)), exprS(b.call(tNothing)), exprS(b.call(tNothing, local(v)))}
	}}
	N := sform{"", func(b *tb, rt *Ty) []*S { return nil }}
	seq := func(fs ...sform) sform {
		n := ""
		for i, f := range fs {
			if i > 0 {
				n += " "
			}
			n += f.name
		}
		return sform{n, func(b *tb, rt *Ty) []*S {
			var r []*S
			for _, f := range fs {
				r = append(r, f.mk(b, rt)...)
			}
			return r
		}}
	}
	iff := func(fs ...sform) sform { // last is else unless named "-"
		n := "if{" + fs[0].name + "}"
		for _, f := range fs[1 : len(fs)-1] {
			n += "elseif{" + f.name + "}"
		}
		last := fs[len(fs)-1]
		if last.name != "-" {
			n += "else{" + last.name + "}"
		}
		return sform{n, func(b *tb, rt *Ty) []*S {
			s := &S{Op: "if"}
			for _, f := range fs[:len(fs)-1] {
				s.Conds = append(s.Conds, b.call(tBool))
				s.Body = append(s.Body, f.mk(b, rt))
			}
			if last.name != "-" {
				s.Conds = append(s.Conds, nil)
				s.Body = append(s.Body, last.mk(b, rt))
			}
			return []*S{s}
		}}
	}
	none := sform{name: "-"}
	wh := func(f sform) sform {
		return sform{"while{" + f.name + "}", func(b *tb, rt *Ty) []*S { return []*S{whileS(b.call(tBool), f.mk(b, rt))} }}
	}
	bl := func(f sform) sform {
		return sform{"{" + f.name + "}", func(b *tb, rt *Ty) []*S { return []*S{blockS(f.mk(b, rt))} }}
	}
	b0 := []sform{N, E, R, seq(E, R), D}
	var c1 []sform
	for _, x := range b0 {
		c1 = append(c1, iff(x, none), wh(x), bl(x))
		for _, y := range b0 {
			c1 = append(c1, iff(x, y))
			c1 = append(c1, iff(x, y, none))
		}
	}
	for _, x := range []sform{E, R, N} {
		for _, y := range []sform{E, R} {
			for _, z := range []sform{E, R} {
				c1 = append(c1, iff(x, y, z))
			}
		}
	}
	var b1 []sform
	for _, c := range c1 {
		b1 = append(b1, c, seq(E, c), seq(c, E), seq(c, R))
	}
	var c2 []sform
	c2 = append(c2, c1...)
	for i, x := range b1 {
		c2 = append(c2, iff(x, E), iff(x, R), iff(E, x), wh(x))
		if i%4 == 0 || thorough {
			c2 = append(c2, iff(x, none), iff(E, x, E), iff(x, E, R), bl(x))
		}
	}
	var r []*Template
	mk := func(f sform, rt *Ty, end sform) {
		b := &tb{}
		r = append(r, b.done(group, f.name+" "+end.name+":"+rt.K, rt, seq(f, end).mk(b, rt), nil))
	}
	for _, f := range c2 {
		mk(f, tInt, seq(E, R))
		mk(f, tNothing, N)
	}
	return r
}
