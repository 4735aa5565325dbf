package checks

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/ai"
)

// Ty describes a Clara type in a program template.
type Ty struct {
	K        string // int bool string bytes array struct enum fn param nothing pointer
	Elem     *Ty
	Params   []*Ty
	Ret      *Ty
	FnKind   string // Normal External Closure StructCons EnumCons
	Raw      bool
	Variadic bool
	Name     string
	Fields   []Field
	Members  []*Ty // enum constructors
	Tag      int64
	Types    []*Ty
}

type Field struct {
	Name string
	T    *Ty
}

var (
	tInt     = &Ty{K: "int"}
	tBool    = &Ty{K: "bool"}
	tString  = &Ty{K: "string"}
	tBytes   = &Ty{K: "bytes"}
	tNothing = &Ty{K: "nothing"}
	tPointer = &Ty{K: "pointer"}
	tParam   = &Ty{K: "param", Name: "T"}
	tIntArr  = &Ty{K: "array", Elem: tInt}
	tStrArr  = &Ty{K: "array", Elem: tString}
	tStruct  = &Ty{K: "struct", Name: "pt", Fields: []Field{{"x", tInt}, {"y", tString}, {"z", tInt}}}
	tEnum    = &Ty{K: "enum", Name: "en"}
	tFn      = &Ty{K: "fn", FnKind: "Normal", Params: []*Ty{tInt}, Ret: tInt}
)

// word is the machine representation kind of a type.
func (t *Ty) word() string {
	switch t.K {
	case "int":
		return "int"
	case "bool":
		return "bool"
	case "nothing":
		return "raw"
	case "pointer":
		return "raw"
	}
	return "ptr"
}

func (t *Ty) isPtr() bool { return t.word() == "ptr" }

var kindConst = map[string]string{"int": "Integer", "bool": "Boolean", "string": "String", "bytes": "Bytes", "array": "Array",
	"struct": "Struct", "enum": "Enum", "fn": "Function", "param": "Parameter", "nothing": "Nothing", "pointer": "Pointer"}

// Tree builds program trees as abstract heap objects of the compiler's own node, symbol and type structures.
type Tree struct {
	Raw    bool // write without instruction clean-up
	M      *ai.Machine
	P      *ai.Program
	types  map[*Ty]ai.Value
	syms   map[interface{}]ai.Value
	consts map[string]int64
}

func NewTree(m *ai.Machine) *Tree {
	return &Tree{M: m, P: m.P, types: map[*Ty]ai.Value{}, syms: map[interface{}]ai.Value{}, consts: map[string]int64{}}
}

func (t *Tree) Const(name string) int64 {
	if v, ok := t.consts[name]; ok {
		return v
	}
	v, ok := t.P.Const(name)
	if !ok {
		panic(AnchorError{"constant " + name})
	}
	t.consts[name] = v
	return v
}

func (t *Tree) goType(name string) types.Type {
	ty := t.P.Type(name)
	if ty == nil {
		panic(AnchorError{"type " + name})
	}
	return ty
}

func (t *Tree) Obj(typeName string, fields map[string]ai.Value) *ai.Cell {
	c := t.M.NewObj(t.goType(typeName), typeName)
	for k, v := range fields {
		t.M.Set(c, k, v)
	}
	return c
}

func (t *Tree) iface(ptrTo string, v ai.Value) ai.Value {
	return &ai.Iface{T: types.NewPointer(t.goType(ptrTo)), V: v}
}

// Type builds (once) the compiler's type object.
func (t *Tree) Type(ty *Ty) ai.Value {
	if ty == nil {
		return ai.Nil{}
	}
	if v, ok := t.types[ty]; ok {
		return v
	}
	c := t.Obj("Type", map[string]ai.Value{"Kind": t.Const(kindConst[ty.K])})
	t.types[ty] = c
	var d ai.Value
	switch ty.K {
	case "int":
		d = t.iface("IntType", t.Obj("IntType", nil))
	case "bool":
		d = t.iface("BoolType", t.Obj("BoolType", nil))
	case "string":
		d = t.iface("StringType", t.Obj("StringType", nil))
	case "bytes":
		d = t.iface("BytesType", t.Obj("BytesType", nil))
	case "nothing":
		d = t.iface("NothingType", t.Obj("NothingType", nil))
	case "pointer":
		d = &ai.Iface{T: t.goType("IntType"), V: t.M.Zero(t.goType("IntType"))}
	case "param":
		d = t.iface("ParameterType", t.Obj("ParameterType", map[string]ai.Value{"Name": ty.Name}))
	case "array":
		d = t.iface("ArrayType", t.Obj("ArrayType", map[string]ai.Value{"Elem": t.Type(ty.Elem)}))
	case "struct":
		o := t.Obj("StructType", map[string]ai.Value{"Name": ty.Name})
		var fs []ai.Value
		for i, f := range ty.Fields {
			fs = append(fs, t.Obj("Symbol", map[string]ai.Value{"Name": f.Name, "Addr": int64(i * 8), "Type": t.Type(f.T)}))
		}
		t.M.Set(o, "Fields", t.list(fs))
		t.M.Set(o, "Types", t.typeList(ty.Types))
		d = t.iface("StructType", o)
	case "enum":
		o := t.Obj("EnumType", map[string]ai.Value{"Name": ty.Name})
		var ms []ai.Value
		for _, mt := range ty.Members {
			ms = append(ms, t.FnType(mt))
		}
		t.M.Set(o, "Members", t.list(ms))
		t.M.Set(o, "Types", t.typeList(ty.Types))
		d = t.iface("EnumType", o)
	case "fn":
		d = t.iface("FunctionType", t.FnType(ty))
	}
	t.M.Set(c, "Data", d)
	return c
}

// FnType builds the FunctionType object of a function type.
func (t *Tree) FnType(ty *Ty) ai.Value {
	if v, ok := t.syms[ty]; ok {
		return v
	}
	o := t.Obj("FunctionType", nil)
	t.syms[ty] = o
	k := ty.FnKind
	if k == "" {
		k = "Normal"
	}
	t.M.Set(o, "Kind", t.Const(k))
	t.M.Set(o, "Params", t.typeList(ty.Params))
	t.M.Set(o, "Types", t.typeList(ty.Types))
	t.M.Set(o, "ret", t.Type(ty.Ret))
	t.M.Set(o, "isVariadic", ty.Variadic)
	t.M.Set(o, "RawValues", ty.Raw)
	switch k {
	case "EnumCons":
		t.M.Set(o, "Data", t.iface("EnumConsFunc", t.Obj("EnumConsFunc", map[string]ai.Value{"Tag": ty.Tag})))
	case "Closure":
		t.M.Set(o, "Data", t.iface("ClosureFunc", t.Obj("ClosureFunc", nil)))
	}
	return o
}

func (t *Tree) typeList(ts []*Ty) ai.Value {
	var vs []ai.Value
	for _, x := range ts {
		vs = append(vs, t.Type(x))
	}
	return t.list(vs)
}

func (t *Tree) list(vs []ai.Value) ai.Value {
	if len(vs) == 0 {
		return ai.Nil{}
	}
	return t.M.MkSlice(vs...)
}

// Var is a local variable or parameter of a template.
type Var struct {
	Name  string
	T     *Ty
	Param bool
}

// Fn is a global function symbol of a template.
type Fn struct {
	Name string
	T    *Ty
}

// X is an expression of a template, S a statement.
type X struct {
	Op  string
	T   *Ty
	K   []*X
	V   *Var
	Fn  *Fn
	Int int64
	Str string
	Off int64
	Fld string
}

type S struct {
	Op    string // expr das as if while return block
	X, L  *X
	Conds []*X   // if chain; nil cond = else
	Body  [][]*S // per branch, or one body
}

func (t *Tree) Token(val string) ai.Value {
	return t.Obj("Token", map[string]ai.Value{"Val": val})
}

func (t *Tree) Node(op string, fields map[string]ai.Value) *ai.Cell {
	if fields == nil {
		fields = map[string]ai.Value{}
	}
	if _, ok := fields["token"]; !ok {
		fields["token"] = t.Token("tok")
	}
	fields["op"] = t.Const(op)
	return t.Obj("Node", fields)
}

func (t *Tree) VarSym(v *Var) ai.Value {
	if s, ok := t.syms[v]; ok {
		return s
	}
	s := t.Obj("Symbol", map[string]ai.Value{"Name": v.Name, "IsStack": !v.Param, "Type": t.Type(v.T)})
	t.syms[v] = s
	return s
}

func (t *Tree) FnSym(f *Fn) ai.Value {
	if s, ok := t.syms[f]; ok {
		return s
	}
	s := t.Obj("Symbol", map[string]ai.Value{"Name": f.Name, "IsGlobal": true, "Type": t.Type(f.T)})
	t.syms[f] = s
	return s
}

func (t *Tree) Expr(x *X) ai.Value {
	if x == nil {
		return ai.Nil{}
	}
	ty := t.Type(x.T)
	kids := func() []ai.Value {
		var r []ai.Value
		for _, k := range x.K {
			r = append(r, t.Expr(k))
		}
		return r
	}
	f := map[string]ai.Value{"typ": ty}
	switch x.Op {
	case "local":
		f["sym"] = t.VarSym(x.V)
		f["token"] = t.Token(x.V.Name)
		return t.Node("opIdentifier", f)
	case "fnref":
		f["sym"] = t.FnSym(x.Fn)
		f["token"] = t.Token(x.Fn.Name)
		return t.Node("opIdentifier", f)
	case "int", "bool", "str":
		name := x.Str
		if x.Op == "int" && name == "" {
			name = fmt.Sprint(x.Int)
		}
		f["sym"] = t.Obj("Symbol", map[string]ai.Value{"Name": name, "Type": ty, "IsLiteral": true})
		f["token"] = t.Token(name)
		return t.Node("opLit", f)
	case "call":
		ks := kids()
		if x.Fn != nil {
			f["left"] = t.Node("opIdentifier", map[string]ai.Value{"sym": t.FnSym(x.Fn), "typ": t.Type(x.Fn.T), "token": t.Token(x.Fn.Name)})
		} else {
			f["left"] = ks[0]
			ks = ks[1:]
		}
		f["stmts"] = t.list(ks)
		return t.Node("opFuncCall", f)
	case "ternary":
		ks := kids()
		f["left"] = ks[0]
		f["stmts"] = t.list(ks[1:])
		return t.Node("opTernary", f)
	case "dot":
		ks := kids()
		f["left"] = ks[0]
		f["right"] = t.Node("opIdentifier", map[string]ai.Value{"typ": ty, "token": t.Token(x.Fld),
			"sym": t.Obj("Symbol", map[string]ai.Value{"Name": x.Fld, "Addr": x.Off, "Type": ty})})
		return t.Node("opDot", f)
	case "index":
		ks := kids()
		f["left"], f["right"] = ks[0], ks[1]
		return t.Node("opArray", f)
	case "wrap": // an array literal after its rewrite: evaluates its builder call
		f["left"] = t.Expr(x.K[0])
		return t.Node("opArrayLit", f)
	}
	ks := kids()
	f["left"] = ks[0]
	if len(ks) > 1 {
		f["right"] = ks[1]
	}
	return t.Node(x.Op, f)
}

func (t *Tree) Stmts(ss []*S) ai.Value {
	var r []ai.Value
	for _, s := range ss {
		r = append(r, t.Stmt(s))
	}
	return t.list(r)
}

func (t *Tree) Stmt(s *S) ai.Value {
	switch s.Op {
	case "expr":
		return t.Expr(s.X)
	case "das":
		return t.Node("opDas", map[string]ai.Value{"left": t.Expr(s.L), "right": t.Expr(s.X)})
	case "as":
		return t.Node("opAs", map[string]ai.Value{"left": t.Expr(s.L), "right": t.Expr(s.X)})
	case "return":
		return t.Node("opReturn", map[string]ai.Value{"left": t.Expr(s.X)})
	case "while":
		return t.Node("opWhile", map[string]ai.Value{"left": t.Expr(s.X), "stmts": t.Stmts(s.Body[0])})
	case "block":
		return t.Node("opBlock", map[string]ai.Value{"stmts": t.Stmts(s.Body[0])})
	case "if":
		var next ai.Value = ai.Nil{}
		for i := len(s.Conds) - 1; i >= 0; i-- {
			op := "opElseIf"
			if i == 0 {
				op = "opIf"
			} else if s.Conds[i] == nil {
				op = "opElse"
			}
			next = t.Node(op, map[string]ai.Value{"left": t.Expr(s.Conds[i]), "stmts": t.Stmts(s.Body[i]), "right": next})
		}
		return next
	}
	panic("stmt " + s.Op)
}

// FnDecl is a function of a template.
type FnDecl struct {
	Fn     *Fn
	Params []*Var
	Body   []*S
	ExprFn *X
	ExtRet bool
}

func (t *Tree) Decl(d *FnDecl) *ai.Cell {
	var ps []ai.Value
	for _, p := range d.Params {
		ps = append(ps, t.Node("opIdentifier", map[string]ai.Value{"sym": t.VarSym(p), "typ": t.Type(p.T), "token": t.Token(p.Name)}))
	}
	f := map[string]ai.Value{"sym": t.FnSym(d.Fn), "typ": t.Type(d.Fn.T), "params": t.list(ps), "token": t.Token(d.Fn.Name)}
	op := "opBlockFnDcl"
	switch {
	case d.Fn.T.FnKind == "StructCons" || d.Fn.T.FnKind == "EnumCons":
		op = "opConsFnDcl"
	case d.Fn.T.FnKind == "External":
		op = "opExternFnDcl"
	case d.ExprFn != nil:
		op = "opExprFnDcl"
		f["stmts"] = t.list([]ai.Value{t.Expr(d.ExprFn)})
	default:
		f["stmts"] = t.Stmts(d.Body)
	}
	if d.ExtRet {
		f["attrs"] = t.extRetAttr()
	}
	return t.Node(op, f)
}

// extRetAttr is whatever value the attribute parser gives to #[ExtRet].
func (t *Tree) extRetAttr() ai.Value {
	add := t.P.Func("attributes.Add")
	if add == nil {
		panic(AnchorError{"attributes.Add"})
	}
	return t.M.Call(add, []ai.Value{int64(0), "ExtRet"})
}

// runtimeFns are functions the code generator resolves by name.
func (t *Tree) symtab() ai.Value {
	ns := t.P.Func("NewSymtab")
	def := t.P.Func("SymTab.Define")
	if ns == nil || def == nil {
		panic(AnchorError{"SymTab"})
	}
	st := t.M.Call(ns, nil)
	d := func(sym ai.Value) { t.M.Call(def, []ai.Value{st, sym}) }
	for _, f := range []*Fn{fnIoob, fnAlloc, fnEntry} {
		d(t.FnSym(f))
	}
	for n, ty := range map[string]*Ty{"bytes": tBytes, "[]int": tIntArr, "[]string": tStrArr, "string": tString, "[]T": {K: "array", Elem: tParam}} {
		d(t.Obj("Symbol", map[string]ai.Value{"Name": n, "IsType": true, "Type": t.Type(ty)}))
	}
	return st
}

var (
	fnIoob  = &Fn{"indexOutOfBounds", &Ty{K: "fn", FnKind: "Normal", Params: []*Ty{tInt, tInt}, Ret: tNothing}}
	fnAlloc = &Fn{"claralloc", &Ty{K: "fn", FnKind: "Normal", Params: []*Ty{tInt, tString, tInt}, Ret: tPointer}}
	fnEntry = &Fn{"entrypoint", &Ty{K: "fn", FnKind: "Normal", Params: []*Ty{tInt, tPointer}, Ret: tInt}}
)

// Generate abstractly interprets code generation of the given functions and returns the emitted text.
func (t *Tree) Generate(decls []*FnDecl) string {
	m := t.M
	fn := func(n string) *ssa.Function {
		f := t.P.Func(n)
		if f == nil {
			panic(AnchorError{n})
		}
		return f
	}
	m.EvalStringer = true
	gw := m.Call(fn("NewGasWriter"), []ai.Value{ai.Nil{}, false})
	gwT := fn("NewGasWriter").Signature.Results().At(0).Type()
	var w ai.Value = gw
	if !types.IsInterface(gwT) {
		w = &ai.Iface{T: gwT, V: gw}
	}
	asm := w
	if !t.Raw {
		asm = m.Call(fn("NewOptimiser"), []ai.Value{w})
	}
	var ns []ai.Value
	for _, d := range decls {
		ns = append(ns, t.Decl(d))
	}
	st := t.symtab()
	m.Events = nil
	m.Call(fn("codegen"), []ai.Value{st, t.list(ns), asm})
	text := ""
	for _, e := range m.Events {
		if e.Kind == "text" {
			text += e.Args[0].(string)
		}
	}
	return text
}
