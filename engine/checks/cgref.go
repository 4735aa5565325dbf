package checks

import (
	"fmt"
	"strings"

	"verif/engine/asmx"
)

// Ref is the definitional semantics of program templates over abstract words.
type Ref struct {
	W      *asmx.World
	Locals map[*Var]asmx.Poly
	scopes [][]*Var
	Events []REvent
	calls  int
	lits   func(s string) (asmx.Poly, error)
	stop   bool // noreturn call happened
	Loops  int
	iter   map[*S]int
}

type REvent struct {
	Kind   string
	Fn     *Fn
	Callee asmx.Poly // indirect
	FnT    *Ty
	Args   []asmx.Poly
	ArgT   []*Ty
	Addr   asmx.Poly
	Val    asmx.Poly
	Locals map[*Var]asmx.Poly
	NoRet  bool
}

type retSignal struct{ v *asmx.Poly }
type stopSignal struct{}

func (r *Ref) epoch() int {
	n := 0
	for _, e := range r.Events {
		if e.Kind == "call" || e.Kind == "store" {
			n++
		}
	}
	return n
}

func (r *Ref) snapshot() map[*Var]asmx.Poly {
	m := map[*Var]asmx.Poly{}
	for k, v := range r.Locals {
		m[k] = v
	}
	return m
}

func untagW(w *asmx.World, p asmx.Poly) asmx.Poly { return w.Sar(p, 1) }
func tagW(p asmx.Poly) asmx.Poly                  { return p.Scale(2).Add(asmx.Const(1)) }

func (r *Ref) Eval(x *X) asmx.Poly {
	w := r.W
	one := asmx.Const(1)
	switch x.Op {
	case "local":
		v, ok := r.Locals[x.V]
		if !ok {
			panic("template reads uninitialised " + x.V.Name)
		}
		return v
	case "int":
		return tagW(asmx.Const(x.Int))
	case "bool":
		if x.Str == "true" {
			return one
		}
		return asmx.Const(0)
	case "str":
		v, err := r.lits(x.Str)
		if err != nil {
			panic(asmx.Fault{Msg: err.Error()})
		}
		return v
	case "fnref":
		return asmx.Atom("&" + x.Fn.Name)
	case "wrap":
		return r.Eval(x.K[0])
	case "ternary":
		c, err := w.Truth(r.Eval(x.K[0]))
		if err != nil {
			panic("template condition: " + err.Error())
		}
		if c {
			return r.Eval(x.K[1])
		}
		return r.Eval(x.K[2])
	case "dot", "index":
		a := r.Addr(x)
		w.SetKind(a, x.T.word())
		return w.Load(a, r.epoch())
	case "call":
		return r.call(x)
	}
	a := r.Eval(x.K[0])
	switch x.Op {
	case "opNot":
		return one.Sub(a)
	case "opNeg":
		return tagW(asmx.Const(0).Sub(untagW(w, a)))
	case "opBNot":
		return tagW(untagW(w, a).Not())
	}
	b := r.Eval(x.K[1])
	switch x.Op {
	case "opAnd":
		return w.Mul(a, b)
	case "opOr":
		return a.Add(b).Sub(w.Mul(a, b))
	}
	p, q := untagW(w, a), untagW(w, b)
	switch x.Op {
	case "opAdd":
		return tagW(p.Add(q))
	case "opSub":
		return tagW(p.Sub(q))
	case "opMul":
		return tagW(w.Mul(p, q))
	case "opDiv":
		return tagW(w.Div(p, q))
	case "opBAnd":
		return tagW(w.Bit("and", p, q))
	case "opBOr":
		return tagW(w.Bit("or", p, q))
	case "opBXor":
		return tagW(w.Bit("xor", p, q))
	case "opBLeft":
		return tagW(w.ShlV(p, q))
	case "opBRight":
		return tagW(w.SarV(p, q))
	case "opLt":
		return w.Lt(p, q)
	case "opGt":
		return w.Lt(q, p)
	case "opLte":
		return one.Sub(w.Lt(q, p))
	case "opGte":
		return one.Sub(w.Lt(p, q))
	case "opEq":
		return w.EqW(p, q)
	}
	panic("ref: " + x.Op)
}

// Addr gives the storage an assignable expression designates.
func (r *Ref) Addr(x *X) asmx.Poly {
	w := r.W
	switch x.Op {
	case "dot":
		return r.Eval(x.K[0]).Add(asmx.Const(x.Off))
	case "index":
		arr := r.Eval(x.K[0])
		idx := r.Eval(x.K[1])
		i := untagW(w, idx)
		w.SetKind(arr, "int")
		lenW := w.Load(arr, r.epoch())
		n := untagW(w, lenW)
		oob, err := w.Truth(asmx.Const(1).Sub(w.Ult(i, n)))
		if err != nil {
			panic("template: " + err.Error())
		}
		if oob {
			r.Events = append(r.Events, REvent{Kind: "call", Fn: fnIoob, FnT: fnIoob.T, Args: []asmx.Poly{tagW(i), lenW}, Locals: nil, NoRet: true})
			panic(stopSignal{})
		}
		return arr.Add(i.Scale(8)).Add(asmx.Const(8))
	}
	panic("ref: address of " + x.Op)
}

func (r *Ref) call(x *X) asmx.Poly {
	w := r.W
	ev := REvent{Kind: "call", Fn: x.Fn}
	args := x.K
	var ft *Ty
	if x.Fn != nil {
		ft = x.Fn.T
	} else {
		ev.Callee = r.Eval(x.K[0])
		ft = x.K[0].T
		args = args[1:]
	}
	ev.FnT = ft
	for _, a := range args {
		ev.Args = append(ev.Args, r.Eval(a))
		ev.ArgT = append(ev.ArgT, a.T)
	}
	if ft.FnKind == "External" && ft.Raw {
		for i := range ev.Args {
			switch ev.ArgT[i].K {
			case "string", "array", "bytes":
				ev.Args[i] = ev.Args[i].Add(asmx.Const(8))
			case "int":
				ev.Args[i] = untagW(w, ev.Args[i])
			}
		}
	}
	ev.Locals = r.snapshot()
	r.Events = append(r.Events, ev)
	r.calls++
	kind := ft.Ret.word()
	if ft.FnKind == "External" && ft.Raw && ft.Ret.K == "int" {
		return tagW(w.Word(fmt.Sprintf("r%d", r.calls), "raw"))
	}
	return w.Word(fmt.Sprintf("r%d", r.calls), kind)
}

func (r *Ref) Exec(ss []*S) {
	var declared []*Var
	for _, s := range ss {
		switch s.Op {
		case "expr":
			r.Eval(s.X)
		case "das":
			r.Locals[s.L.V] = r.Eval(s.X)
			declared = append(declared, s.L.V)
		case "as":
			v := r.Eval(s.X)
			if s.L.Op == "local" {
				r.Locals[s.L.V] = v
				break
			}
			a := r.Addr(s.L)
			r.Events = append(r.Events, REvent{Kind: "store", Addr: a, Val: v})
		case "return":
			if s.X == nil {
				panic(retSignal{})
			}
			v := r.Eval(s.X)
			panic(retSignal{&v})
		case "block":
			r.Exec(s.Body[0])
		case "if":
			for i, c := range s.Conds {
				take := true
				if c != nil {
					t, err := r.W.Truth(r.Eval(c))
					if err != nil {
						panic("template: " + err.Error())
					}
					take = t
				}
				if take {
					r.Exec(s.Body[i])
					break
				}
			}
		case "while":
			for n := 0; ; n++ {
				t, err := r.W.Truth(r.Eval(s.X))
				if err != nil {
					panic("template: " + err.Error())
				}
				if !t {
					break
				}
				if n >= 2 {
					panic(asmx.Cut{})
				}
				r.Exec(s.Body[0])
			}
		}
	}
	for _, v := range declared {
		delete(r.Locals, v)
	}
}

// Run executes a function body and returns how it ended.
func (r *Ref) Run(d *FnDecl) (exit string, ret *asmx.Poly) {
	defer func() {
		if e := recover(); e != nil {
			switch s := e.(type) {
			case retSignal:
				exit, ret = "return", s.v
			case stopSignal:
				exit = "noreturn"
			case asmx.Cut:
				exit = "cut"
			default:
				panic(e)
			}
		}
	}()
	for i, p := range d.Params {
		r.Locals[p] = r.W.Word(fmt.Sprintf("p%d.%s", i, p.Name), p.T.word())
	}
	if d.ExprFn != nil {
		v := r.Eval(d.ExprFn)
		return "return", &v
	}
	r.Exec(d.Body)
	return "return", nil
}

func sym(target string) string { return strings.TrimPrefix(target, "&") }
