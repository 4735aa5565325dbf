package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	m         *Machine
	fn        *ssa.Function
	env       map[ssa.Value]Value
	defers    []deferred
	panicking *AbsPanic
	recovered bool
	result    Value
	caller    *frame
}

// Call analyses a call of a function value with abstract arguments.
func (m *Machine) Call(fn *ssa.Function, args []Value) Value { return m.call(nil, fn, args, nil) }

func (m *Machine) CallValue(f Value, args []Value) Value { return m.callValue(nil, f, args) }

func (m *Machine) callValue(caller *frame, f Value, args []Value) Value {
	switch f := f.(type) {
	case *ssa.Function:
		return m.call(caller, f, args, nil)
	case *Closure:
		return m.call(caller, f.Fn, args, f.Bind)
	case *Sym:
		if m.IsNil(f) {
			m.nilDeref(f)
		}
		m.Events = append(m.Events, Event{Kind: "callsym", Args: append([]Value{f}, args...)})
		if h, ok := m.ExtHooks["callsym"]; ok {
			if v, ok := h(m, nil, append([]Value{f}, args...)); ok {
				return v
			}
		}
		sig := f.Typ.Underlying().(*types.Signature)
		return m.freshResult("call "+f.Key, sig)
	case Nil:
		m.nilDeref(f)
	}
	m.abort("call of %s", Show(f))
	return nil
}

func (m *Machine) freshResult(name string, sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		m.fresh[name]++
		return m.Opaque(fmt.Sprintf("%s'%d", name, m.fresh[name]), sig.Results().At(0).Type())
	}
	m.fresh[name]++
	var tp Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		tp = append(tp, m.Opaque(fmt.Sprintf("%s'%d#%d", name, m.fresh[name], i), sig.Results().At(i).Type()))
	}
	return tp
}

func (m *Machine) call(caller *frame, fn *ssa.Function, args []Value, bind []Value) Value {
	if h, ok := m.Hooks[fn]; ok {
		if v, ok := h(m, fn, args); ok {
			return v
		}
	}
	if fn.Blocks == nil || (fn.Pkg != nil && !m.P.Local[fn.Pkg]) || (fn.Pkg == nil && fn.Origin() == nil && fn.Synthetic == "") {
		return m.extern(fn, args)
	}
	return m.body(caller, fn, args, bind)
}

func (m *Machine) body(caller *frame, fn *ssa.Function, args []Value, bind []Value) Value {
	m.depth++
	if m.depth > 200+m.ExtraDepth {
		m.abort("recursion deeper than 200")
	}
	m.Covered[fn] = true
	m.stack = append(m.stack, fn)
	m.sites = append(m.sites, token.NoPos)
	defer func() {
		m.depth--
		m.stack = m.stack[:len(m.stack)-1]
		m.sites = m.sites[:len(m.sites)-1]
	}()
	fr := &frame{m: m, fn: fn, env: map[ssa.Value]Value{}, caller: caller}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	fr.exec()
	return fr.result
}

func (fr *frame) exec() {
	block := fr.fn.Blocks[0]
	var prev *ssa.BasicBlock
	run := func() {
		for block != nil {
			fr.m.Edges[block] = true
			next := fr.block(block, prev)
			prev, block = block, next
		}
	}
	hasDefer := false
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				hasDefer = true
			}
		}
	}
	if !hasDefer {
		run()
		return
	}
	func() {
		depth, ns := fr.m.depth, len(fr.m.stack)
		defer func() {
			if r := recover(); r != nil {
				ap, ok := r.(AbsPanic)
				if !ok {
					panic(r)
				}
				fr.m.depth = depth
				fr.m.stack = fr.m.stack[:ns]
				fr.m.sites = fr.m.sites[:ns]
				fr.panicking = &ap
				fr.runDefers()
				if fr.panicking != nil && !fr.recovered {
					panic(*fr.panicking)
				}
				// recovered: run the recover block for named results
				if fr.fn.Recover != nil {
					block, prev = fr.fn.Recover, nil
					run()
				}
			}
		}()
		run()
	}()
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if _, ok := d.fn.(*ssa.Builtin); ok {
			continue
		}
		fr.m.callValue(fr, d.fn, d.args)
	}
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		if c, ok := constVal(v); ok {
			return c
		}
		return fr.m.Zero(v.Type())
	case *ssa.Function:
		return v
	case *ssa.Global:
		return fr.m.Global(v)
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		fr.m.abort("undefined SSA value %s", v.Name())
	}
	return r
}

func (fr *frame) block(b, prev *ssa.BasicBlock) *ssa.BasicBlock {
	m := fr.m
	// phis first, in parallel
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				phis = append(phis, p)
				vals = append(vals, fr.get(p.Edges[i]))
				break
			}
		}
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	for _, in := range b.Instrs {
		m.Steps++
		if m.Steps > m.MaxSteps {
			m.abort("step budget exceeded")
		}
		if in.Pos().IsValid() {
			m.sites[len(m.sites)-1] = in.Pos()
		}
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.DebugRef:
		case *ssa.If:
			if m.Truth(fr.get(in.Cond)) {
				return b.Succs[0]
			}
			return b.Succs[1]
		case *ssa.Jump:
			return b.Succs[0]
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
			case 1:
				fr.result = fr.get(in.Results[0])
			default:
				var tp Tuple
				for _, r := range in.Results {
					tp = append(tp, fr.get(r))
				}
				fr.result = tp
			}
			return nil
		case *ssa.Panic:
			panic(AbsPanic{V: fr.get(in.X), Site: m.Where()})
		case *ssa.RunDefers:
			fr.runDefers()
		case *ssa.Store:
			m.store(m.Deref(fr.get(in.Addr)), m.copyVal(fr.get(in.Val)))
		case *ssa.MapUpdate:
			m.mapSet(fr.get(in.Map), fr.get(in.Key), fr.get(in.Value))
		case *ssa.Send:
			ch := fr.get(in.Chan)
			if c, ok := ch.(*Chan); ok && m.EagerGo {
				if c.Closed {
					panic(AbsPanic{V: &Iface{V: "send on closed channel"}, Site: m.Where()})
				}
				c.Sent = append(c.Sent, fr.get(in.X))
			}
			m.Events = append(m.Events, Event{Kind: "send", Args: []Value{ch, fr.get(in.X)}, Pos: in.Pos()})
		case *ssa.Go:
			_, fv, args := fr.callee(&in.Call)
			if m.EagerGo { // the goroutine's sends are queued; it receives nothing
				m.callValue(fr, fv, args)
				break
			}
			m.Events = append(m.Events, Event{Kind: "go", Args: append([]Value{fv}, args...), Pos: in.Pos()})
		case *ssa.Defer:
			_, fv, args := fr.callee(&in.Call)
			fr.defers = append(fr.defers, deferred{fn: fv, args: args})
		case ssa.Value:
			fr.env[in] = fr.eval(in)
		default:
			m.abort("unsupported instruction %T", in)
		}
	}
	return nil
}

// callee resolves a call; the first result is non-nil only for calls handled by the invoke hook.
func (fr *frame) callee(c *ssa.CallCommon) (handled *Value, fv Value, args []Value) {
	m := fr.m
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	if !c.IsInvoke() {
		return nil, fr.get(c.Value), args
	}
	recv := fr.get(c.Value)
	if m.InvokeHook != nil {
		if v, ok := m.InvokeHook(m, c, recv, args); ok {
			return &v, nil, args
		}
	}
	switch r := recv.(type) {
	case *Iface:
		if e, ok := r.V.(*ErrVal); ok {
			var v Value = e.Msg
			return &v, nil, args
		}
		if f := m.P.Prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name()); f != nil {
			return nil, f, append([]Value{r.V}, args...)
		}
		m.abort("no method %s on %v", c.Method.Name(), r.T)
	case *Sym:
		if m.IsNil(r) {
			m.nilDeref(r)
		}
		m.Events = append(m.Events, Event{Kind: "invoke", Args: append([]Value{r}, args...), Data: c.Method.Name()})
		v := m.freshResult(r.Key+"."+c.Method.Name(), c.Method.Type().(*types.Signature))
		return &v, nil, args
	case Nil:
		m.nilDeref(recv)
	}
	m.abort("invoke on %s", Show(recv))
	return nil, nil, nil
}

func (fr *frame) eval(in ssa.Value) Value {
	m := fr.m
	switch in := in.(type) {
	case *ssa.Alloc:
		c := &Cell{ID: m.id(), V: m.Zero(in.Type().(*types.Pointer).Elem()), Name: in.Comment, Site: in}
		return c
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return fr.builtin(b, in)
		}
		h, fv, args := fr.callee(&in.Call)
		if h != nil {
			return *h
		}
		return m.callValue(fr, fv, args)
	case *ssa.BinOp:
		return m.binop(in.Op, fr.get(in.X), fr.get(in.Y), in.X.Type(), in.Type())
	case *ssa.UnOp:
		x := fr.get(in.X)
		switch in.Op {
		case token.MUL:
			return m.copyVal(m.Deref(x).Get())
		case token.NOT:
			switch x := x.(type) {
			case bool:
				return !x
			case *Sym:
				return m.Term("!", in.Type(), x)
			}
		case token.SUB:
			switch x := x.(type) {
			case int64:
				return wrap(-x, in.Type())
			case *Sym:
				return m.Term("neg", in.Type(), x)
			}
		case token.XOR:
			switch x := x.(type) {
			case int64:
				return wrap(^x, in.Type())
			case *Sym:
				return m.Term("^", in.Type(), x)
			}
		case token.ARROW:
			m.Events = append(m.Events, Event{Kind: "recv", Args: []Value{x}, Pos: in.Pos()})
			if ch, ok := x.(*Chan); ok && m.EagerGo {
				var v Value
				got := len(ch.Sent) > 0
				et := in.X.Type().Underlying().(*types.Chan).Elem()
				switch {
				case got:
					v = ch.Sent[0]
					ch.Sent = ch.Sent[1:]
				case ch.Closed:
					v = m.Zero(et)
				default:
					panic(AbsPanic{V: &Iface{V: "receives forever from a channel nothing is sent to"}, Site: m.Where()})
				}
				if in.CommaOk {
					return Tuple{v, got}
				}
				return v
			}
			if h, ok := m.ExtHooks["<-"]; ok {
				if v, ok := h(m, nil, []Value{x}); ok {
					return v
				}
			}
			return m.freshValue("recv", in.Type())
		}
		m.abort("unop %v on %s", in.Op, Show(x))
	case *ssa.FieldAddr:
		x := fr.get(in.X)
		c := m.Deref(x)
		st, ok := c.Get().(*Struct)
		if !ok {
			m.abort("field of %s", Show(c.V))
		}
		return st.F[in.Field]
	case *ssa.Field:
		st, ok := fr.get(in.X).(*Struct)
		if !ok {
			m.abort("field of %s", Show(fr.get(in.X)))
		}
		return st.F[in.Field].Get()
	case *ssa.IndexAddr:
		return m.indexAddr(fr.get(in.X), fr.get(in.Index))
	case *ssa.Index:
		x := fr.get(in.X)
		if s, ok := x.(string); ok {
			return m.strIndex(s, fr.get(in.Index))
		}
		if a, ok := x.(*Array); ok {
			i, ok := fr.get(in.Index).(int64)
			if !ok || int(i) >= len(a.E) || i < 0 {
				m.abort("array index")
			}
			return a.E[i].Get()
		}
		m.abort("index of %s", Show(x))
	case *ssa.Lookup:
		x := fr.get(in.X)
		if s, ok := x.(string); ok {
			return m.strIndex(s, fr.get(in.Index))
		}
		if rs, ok := x.(*RuneStr); ok {
			return m.runeStrIndex(rs, fr.get(in.Index))
		}
		v, found := m.mapGet(x, fr.get(in.Index), in.X.Type())
		if in.CommaOk {
			return Tuple{v, found}
		}
		return v
	case *ssa.Slice:
		return fr.slice(in)
	case *ssa.MakeSlice:
		n, ok := fr.get(in.Len).(int64)
		if !ok {
			return m.freshValue("make", in.Type())
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		a := &Array{}
		for i := int64(0); i < n; i++ {
			a.E = append(a.E, &Cell{ID: m.id(), V: m.Zero(et)})
		}
		return &Slice{Arr: a, Len: int(n), Cap: int(n)}
	case *ssa.MakeMap:
		return &Map{ID: m.id()}
	case *ssa.MakeChan:
		return &Chan{ID: m.id()}
	case *ssa.MakeClosure:
		cl := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.Bind = append(cl.Bind, fr.get(b))
		}
		return cl
	case *ssa.MakeInterface:
		v := fr.get(in.X)
		return &Iface{T: in.X.Type(), V: m.copyVal(v)}
	case *ssa.ChangeInterface:
		return fr.get(in.X)
	case *ssa.ChangeType:
		return m.copyVal(fr.get(in.X))
	case *ssa.Convert:
		return m.convert(fr.get(in.X), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		return m.typeAssert(fr.get(in.X), in)
	case *ssa.Extract:
		tp, ok := fr.get(in.Tuple).(Tuple)
		if !ok {
			m.abort("extract from %s", Show(fr.get(in.Tuple)))
		}
		return tp[in.Index]
	case *ssa.Range:
		return m.rangeOver(fr.get(in.X))
	case *ssa.Next:
		return m.next(fr.get(in.Iter).(*Iter), in)
	}
	m.abort("unsupported %T", in)
	return nil
}

func (m *Machine) freshValue(name string, t types.Type) Value {
	m.fresh[name]++
	return m.Opaque(fmt.Sprintf("%s'%d", name, m.fresh[name]), t)
}

func wrap(v int64, t types.Type) Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (m *Machine) binop(op token.Token, x, y Value, xt, rt types.Type) Value {
	if op == token.ADD {
		_, a := x.(*RuneStr)
		_, b := y.(*RuneStr)
		if s, t := toRunes(x), toRunes(y); (a || b) && s != nil && t != nil {
			return &RuneStr{append(append([]AChar{}, s.C...), t.C...)}
		}
	}
	switch op {
	case token.EQL:
		return m.equal(x, y)
	case token.NEQ:
		return m.not(m.equal(x, y))
	}
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			switch op {
			case token.ADD:
				return wrap(a+b, rt)
			case token.SUB:
				return wrap(a-b, rt)
			case token.MUL:
				return wrap(a*b, rt)
			case token.QUO:
				if b == 0 {
					panic(AbsPanic{V: &Iface{V: "divide by zero"}, Site: m.Where()})
				}
				if isUnsigned(xt) {
					return wrap(int64(uint64(a)/uint64(b)), rt)
				}
				return wrap(a/b, rt)
			case token.REM:
				if b == 0 {
					panic(AbsPanic{V: &Iface{V: "divide by zero"}, Site: m.Where()})
				}
				return wrap(a%b, rt)
			case token.AND:
				return wrap(a&b, rt)
			case token.OR:
				return wrap(a|b, rt)
			case token.XOR:
				return wrap(a^b, rt)
			case token.AND_NOT:
				return wrap(a&^b, rt)
			case token.SHL:
				return wrap(a<<uint(b), rt)
			case token.SHR:
				if isUnsigned(xt) {
					return wrap(int64(uint64(a)>>uint(b)), rt)
				}
				return wrap(a>>uint(b), rt)
			case token.LSS:
				if isUnsigned(xt) {
					return uint64(a) < uint64(b)
				}
				return a < b
			case token.LEQ:
				if isUnsigned(xt) {
					return uint64(a) <= uint64(b)
				}
				return a <= b
			case token.GTR:
				if isUnsigned(xt) {
					return uint64(a) > uint64(b)
				}
				return a > b
			case token.GEQ:
				if isUnsigned(xt) {
					return uint64(a) >= uint64(b)
				}
				return a >= b
			}
		}
	}
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if !HasHole(a) && !HasHole(b) {
					switch op {
					case token.LSS:
						return a < b
					case token.LEQ:
						return a <= b
					case token.GTR:
						return a > b
					}
					return a >= b
				}
				return m.Term("str"+op.String(), rt, x, y)
			}
		}
	}
	switch op {
	case token.LSS:
		return m.less(x, y, rt)
	case token.GTR:
		return m.less(y, x, rt)
	case token.LEQ:
		return m.not(m.less(y, x, rt))
	case token.GEQ:
		return m.not(m.less(x, y, rt))
	case token.ADD:
		if c, ok := y.(int64); ok && c == 0 {
			return x
		}
		if c, ok := x.(int64); ok && c == 0 {
			return y
		}
		// (t + c1) + c2
		if s, ok := x.(*Sym); ok && s.Op == "+" {
			if c1, ok := s.Args[1].(int64); ok {
				if c2, ok := y.(int64); ok {
					return m.binop(token.ADD, s.Args[0], c1+c2, xt, rt)
				}
			}
		}
		if _, ok := x.(int64); ok {
			x, y = y, x
		}
	case token.SUB:
		if c, ok := y.(int64); ok {
			return m.binop(token.ADD, x, -c, xt, rt)
		}
		if keyOf(x) == keyOf(y) {
			return int64(0)
		}
	case token.MUL:
		if c, ok := y.(int64); ok && c == 1 {
			return x
		}
		if c, ok := x.(int64); ok && c == 1 {
			return y
		}
	case token.SHR, token.SHL:
		if c, ok := y.(int64); ok && c == 0 {
			return x
		}
	}
	_, okx := x.(*Sym)
	_, oky := y.(*Sym)
	if okx || oky {
		return m.Term(op.String(), rt, x, y)
	}
	m.abort("binop %v on %s, %s", op, Show(x), Show(y))
	return nil
}

func (m *Machine) not(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Sym:
		if v.Op == "!" {
			return v.Args[0]
		}
		return m.Term("!", types.Typ[types.Bool], v)
	}
	m.abort("not of %s", Show(v))
	return nil
}

func (m *Machine) less(x, y Value, rt types.Type) Value {
	if s, ok := x.(*Sym); ok {
		if c, ok := y.(int64); ok {
			f := m.fact(s)
			if f.hi < c {
				return true
			}
			if f.lo >= c {
				return false
			}
		}
	}
	if s, ok := y.(*Sym); ok {
		if c, ok := x.(int64); ok {
			f := m.fact(s)
			if f.lo > c {
				return true
			}
			if f.hi <= c {
				return false
			}
		}
	}
	if keyOf(x) == keyOf(y) {
		return false
	}
	return m.Term("<", types.Typ[types.Bool], x, y)
}

func isNilV(v Value) bool { _, ok := v.(Nil); return ok }

// equal compares abstract values.
func (m *Machine) equal(x, y Value) Value {
	if isNilV(x) && isNilV(y) {
		return true
	}
	if _, ok := x.(*RuneStr); ok {
		if t := toRunes(y); t != nil {
			return m.runeStrEq(x.(*RuneStr), t)
		}
	}
	if _, ok := y.(*RuneStr); ok {
		if t := toRunes(x); t != nil {
			return m.runeStrEq(t, y.(*RuneStr))
		}
	}
	if isNilV(y) {
		x, y = y, x
	}
	if isNilV(x) {
		switch y := y.(type) {
		case *Sym:
			if y.NonNil {
				return false
			}
			if _, ok := m.objs[y]; ok {
				return false
			}
			if l, ok := m.lists[y]; ok {
				return l.Len == 0 // approximation: empty opaque lists are nil
			}
			if _, ok := y.Typ.Underlying().(*types.Slice); ok {
				return m.AsSlice(y).Len == 0
			}
			return m.IsNil(y)
		case *Slice:
			return y.Arr == nil
		default:
			return false
		}
	}
	switch a := x.(type) {
	case *ErrVal:
		if b, ok := y.(*ErrVal); ok {
			return a == b
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Sym:
			if a {
				return b
			}
			return m.not(b)
		}
	case int64:
		switch b := y.(type) {
		case int64:
			return a == b
		case *Sym:
			return m.symEqConst(b, a)
		}
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
	case string:
		if b, ok := y.(string); ok {
			return m.strEq(a, b)
		}
	case *Sym:
		switch b := y.(type) {
		case *Sym:
			if a == b || a.Key == b.Key {
				return true
			}
			if isPtrLike(a.Typ) {
				return m.symPtrEq(a, b)
			}
			ka, kb := a.Key, b.Key
			if ka > kb {
				return m.Term("==", types.Typ[types.Bool], y, x)
			}
			return m.Term("==", types.Typ[types.Bool], x, y)
		case int64:
			return m.symEqConst(a, b)
		case bool:
			if b {
				return a
			}
			return m.not(a)
		case *Cell:
			if c, ok := m.objs[a]; ok {
				return c == b
			}
			return false
		case *Iface:
			return false
		}
	case *Cell:
		switch b := y.(type) {
		case *Cell:
			return a == b
		case *Sym:
			if c, ok := m.objs[b]; ok {
				return c == a
			}
			return false
		}
	case *Iface:
		switch b := y.(type) {
		case *Iface:
			if !types.Identical(a.T, b.T) {
				return false
			}
			return m.equal(a.V, b.V)
		}
		return false
	case *Map:
		b, ok := y.(*Map)
		return ok && a == b
	case *Struct:
		b, ok := y.(*Struct)
		if ok {
			var acc Value = true
			for i := range a.F {
				e := m.equal(a.F[i].Get(), b.F[i].Get())
				if eb, ok := e.(bool); ok {
					if !eb {
						return false
					}
					continue
				}
				if !m.Truth(e) {
					return false
				}
			}
			return acc
		}
	case *ssa.Function:
		return x == y
	case *Closure:
		return x == y
	}
	m.abort("equality of %s and %s", Show(x), Show(y))
	return nil
}

func (m *Machine) symPtrEq(a, b *Sym) Value {
	if _, ok := m.Extra["ptrEqFork"]; ok {
		ka, kb := a.Key, b.Key
		if ka > kb {
			a, b = b, a
		}
		return m.Term("==", types.Typ[types.Bool], a, b)
	}
	return false
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func (m *Machine) symEqConst(s *Sym, c int64) Value {
	f := m.fact(s)
	if !f.feasible(c) {
		return false
	}
	if f.lo == f.hi && f.lo == c {
		return true
	}
	return m.Term("==", types.Typ[types.Bool], s, c)
}

func (m *Machine) strEq(a, b string) Value {
	if a == b {
		return true
	}
	if !HasHole(a) && !HasHole(b) {
		return false
	}
	// Definite disequality from literal prefixes / suffixes
	pa, pb := litPrefix(a), litPrefix(b)
	n := len(pa)
	if len(pb) < n {
		n = len(pb)
	}
	if pa[:n] != pb[:n] {
		return false
	}
	sa, sb := litSuffix(a), litSuffix(b)
	n = len(sa)
	if len(sb) < n {
		n = len(sb)
	}
	if sa[len(sa)-n:] != sb[len(sb)-n:] {
		return false
	}
	if a > b {
		a, b = b, a
	}
	k := keyOf(a) + "==" + keyOf(b)
	if v, ok := m.bools[k]; ok {
		return v
	}
	// a hole already known equal to a constant cannot equal another one
	for _, h := range []string{a, b} {
		o := b
		if h == b {
			o = a
		}
		if !HasHole(o) && strings.HasPrefix(h, holeL) && strings.HasSuffix(h, holeR) && strings.Count(h, holeL) == 1 {
			ek := "streq:" + h
			if v, ok := m.Extra[ek]; ok {
				return v.(string) == o
			}
			t := m.Decide(k)
			if t {
				m.Extra[ek] = o
			}
			return t
		}
	}
	return m.Decide(k)
}

func litPrefix(s string) string {
	if i := strings.Index(s, holeL); i >= 0 {
		return s[:i]
	}
	return s
}
func litSuffix(s string) string {
	if i := strings.LastIndex(s, holeR); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (m *Machine) indexAddr(x, idx Value) Value {
	i, ok := idx.(int64)
	switch x := x.(type) {
	case *Cell:
		a, isArr := x.Get().(*Array)
		if isArr && ok {
			if i < 0 || int(i) >= len(a.E) {
				panic(AbsPanic{V: &Iface{V: "index out of range"}, Site: m.Where()})
			}
			return a.E[i]
		}
	case *Slice, *Sym, Nil:
		s := m.AsSlice(x)
		if ok {
			if i < 0 || int(i) >= s.Len {
				panic(AbsPanic{V: &Iface{V: fmt.Sprintf("index out of range [%d] with length %d", i, s.Len)}, Site: m.Where()})
			}
			return s.At(int(i))
		}
		if sy, isSym := idx.(*Sym); isSym {
			// partition over the elements
			for j := 0; j < s.Len; j++ {
				if m.Truth(m.symEqConst(sy, int64(j))) {
					return s.At(j)
				}
			}
			panic(AbsPanic{V: &Iface{V: "index out of range [" + sy.Key + "]"}, Site: m.Where()})
		}
	}
	m.abort("index %s of %s", Show(idx), Show(x))
	return nil
}

func (m *Machine) strIndex(s string, idx Value) Value {
	i, ok := idx.(int64)
	if ok && int(i) < len(litPrefix(s)) && i >= 0 {
		return int64(s[i])
	}
	if ok && !HasHole(s) {
		panic(AbsPanic{V: &Iface{V: "string index out of range"}, Site: m.Where()})
	}
	return m.Term("byteat", types.Typ[types.Uint8], s, idx)
}

// mapGet looks a key up; unknown key equalities partition.
func (m *Machine) mapGet(mv, k Value, mt types.Type) (Value, Value) {
	var et types.Type
	if t, ok := mt.Underlying().(*types.Map); ok {
		et = t.Elem()
	}
	switch mp := mv.(type) {
	case Nil:
		return m.Zero(et), false
	case *Map:
		for i, kk := range mp.Keys {
			if m.Truth(m.equal(kk, k)) {
				return m.copyVal(mp.Vals[i]), true
			}
		}
		return m.Zero(et), false
	case *Sym:
		// opaque map: memoised per key
		if m.IsNil(mp) {
			return m.Zero(et), false
		}
		ck := "map:" + mp.Key
		mm, _ := m.Extra[ck].(*Map)
		if mm == nil {
			mm = &Map{ID: m.id()}
			m.Extra[ck] = mm
		}
		for i, kk := range mm.Keys {
			if m.Truth(m.equal(kk, k)) {
				if _, absent := mm.Vals[i].(absentT); absent {
					return m.Zero(et), false
				}
				return mm.Vals[i], true
			}
		}
		if m.Decide("has(" + mp.Key + "," + keyOf(k) + ")") {
			v := m.Opaque(mp.Key+"["+keyOf(k)+"]", et)
			if s, ok := v.(*Sym); ok {
				s.NonNil = true
			}
			mm.Keys = append(mm.Keys, k)
			mm.Vals = append(mm.Vals, v)
			return v, true
		}
		mm.Keys = append(mm.Keys, k)
		mm.Vals = append(mm.Vals, absentT{})
		return m.Zero(et), false
	}
	m.abort("lookup in %s", Show(mv))
	return nil, nil
}

type absentT struct{}

// MapEntries lists the entries of a map value (including what was learned about an opaque map).
func (m *Machine) MapEntries(v Value) (ks, vs []Value) {
	switch mp := v.(type) {
	case *Map:
		return mp.Keys, mp.Vals
	case *Sym:
		if mm, ok := m.Extra["map:"+mp.Key].(*Map); ok {
			for i := range mm.Keys {
				if _, a := mm.Vals[i].(absentT); !a {
					ks = append(ks, mm.Keys[i])
					vs = append(vs, mm.Vals[i])
				}
			}
		}
	}
	return
}

func (m *Machine) mapSet(mv, k, v Value) {
	var mp *Map
	switch x := mv.(type) {
	case *Map:
		mp = x
	case *Sym:
		if m.IsNil(x) {
			m.nilDeref(x)
		}
		ck := "map:" + x.Key
		mp, _ = m.Extra[ck].(*Map)
		if mp == nil {
			mp = &Map{ID: m.id()}
			m.Extra[ck] = mp
		}
	case Nil:
		panic(AbsPanic{V: &Iface{V: "assignment to entry in nil map"}, Site: m.Where()})
	default:
		m.abort("update of %s", Show(mv))
	}
	for i, kk := range mp.Keys {
		if m.Truth(m.equal(kk, k)) {
			if m.frozen != nil && !sameScalar(mp.Vals[i], v) {
				m.frozenMap(mp)
			}
			mp.Vals[i] = m.copyVal(v)
			return
		}
	}
	m.frozenMap(mp)
	mp.Keys = append(mp.Keys, k)
	mp.Vals = append(mp.Vals, m.copyVal(v))
}

func (m *Machine) MapSet(mv, k, v Value) { m.mapSet(mv, k, v) }
func (m *Machine) MapLookup(mv, k Value, t types.Type) (Value, bool) {
	v, f := m.mapGet(mv, k, t)
	return v, f.(bool)
}

func (m *Machine) rangeOver(x Value) *Iter {
	switch x := x.(type) {
	case *Map:
		it := &Iter{m: x}
		it.keys = append(it.keys, x.Keys...)
		if m.MapReverse {
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
		return it
	case string:
		return &Iter{s: x}
	case *RuneStr:
		return &Iter{r: x}
	case Nil:
		return &Iter{m: &Map{}}
	case *Sym:
		mm, _ := m.Extra["map:"+x.Key].(*Map)
		if mm == nil {
			mm = &Map{}
		}
		it := &Iter{m: mm}
		for i, k := range mm.Keys {
			if _, a := mm.Vals[i].(absentT); !a {
				it.keys = append(it.keys, k)
			}
		}
		return it
	}
	m.abort("range over %s", Show(x))
	return nil
}

func (m *Machine) next(it *Iter, in *ssa.Next) Value {
	if in.IsString && it.r != nil {
		if it.i >= len(it.r.C) {
			return Tuple{false, int64(0), int64(0)}
		}
		it.i++
		return Tuple{true, it.r.off(it.i - 1), it.r.C[it.i-1].R}
	}
	if in.IsString {
		if HasHole(it.s) {
			m.abort("range over unknown string")
		}
		rs := []rune(it.s[it.i:])
		if len(rs) == 0 {
			return Tuple{false, int64(0), int64(0)}
		}
		i := it.i
		it.i += len(string(rs[0]))
		return Tuple{true, int64(i), int64(rs[0])}
	}
	tt := in.Type().(*types.Tuple)
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		for i, kk := range it.m.Keys {
			if keyOf(kk) == keyOf(k) {
				return Tuple{true, k, m.copyVal(it.m.Vals[i])}
			}
		}
	}
	zero := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return m.Zero(t)
	}
	return Tuple{false, zero(tt.At(1).Type()), zero(tt.At(2).Type())}
}

func (m *Machine) typeAssert(x Value, in *ssa.TypeAssert) Value {
	ok := false
	var v Value
	switch i := x.(type) {
	case *Iface:
		if types.IsInterface(in.AssertedType) {
			if types.Implements(i.T, in.AssertedType.Underlying().(*types.Interface)) {
				ok, v = true, i
			}
		} else if types.Identical(i.T, in.AssertedType) {
			ok, v = true, m.copyVal(i.V)
		}
	case Nil:
	case *Sym:
		k := "is(" + i.Key + "," + in.AssertedType.String() + ")"
		// at most one concrete type per opaque interface
		if !types.IsInterface(in.AssertedType) {
			if prev, has := m.Extra["dyn:"+i.Key]; has {
				if types.Identical(prev.(types.Type), in.AssertedType) {
					ok, v = true, m.Opaque(i.Key+".("+in.AssertedType.String()+")", in.AssertedType)
				}
				break
			}
		}
		if m.Decide(k) {
			ok, v = true, m.Opaque(i.Key+".("+in.AssertedType.String()+")", in.AssertedType)
			if s, isS := v.(*Sym); isS {
				s.NonNil = true
			}
			m.Extra["dyn:"+i.Key] = in.AssertedType
		}
	default:
		m.abort("type assertion on %s", Show(x))
	}
	if in.CommaOk {
		if !ok {
			v = m.Zero(in.AssertedType)
		}
		return Tuple{v, ok}
	}
	if !ok {
		panic(AbsPanic{V: &Iface{V: "interface conversion: " + Show(x) + " is not " + in.AssertedType.String()}, Site: m.Where()})
	}
	return v
}

func (m *Machine) convert(x Value, from, to types.Type) Value {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if rs, ok := x.(*RuneStr); ok {
		if tb != nil {
			return rs
		}
		if st, ok := to.Underlying().(*types.Slice); ok && st.Elem().Underlying().(*types.Basic).Kind() == types.Int32 {
			var vs []Value
			for _, c := range rs.C {
				vs = append(vs, c.R)
			}
			return m.MkSlice(vs...)
		}
		var vs []Value
		for i := 0; i < rs.Len(); i++ {
			vs = append(vs, m.runeStrIndex(rs, int64(i)))
		}
		return m.MkSlice(vs...)
	}
	if fb != nil && tb != nil {
		if tb.Info()&types.IsString != 0 {
			switch x := x.(type) {
			case string:
				return x
			case int64:
				return string(rune(x))
			case *Sym:
				return m.Hole(m.Term("string", to, x))
			}
		}
		if tb.Info()&types.IsInteger != 0 {
			switch x := x.(type) {
			case int64:
				return wrap(x, to)
			case float64:
				return wrap(int64(x), to)
			case *Sym:
				f := m.fact(x)
				if w, ok := wrap(f.lo, to).(int64); ok && w == f.lo {
					if w2 := wrap(f.hi, to).(int64); w2 == f.hi {
						return x
					}
				}
				// widening
				if types.Identical(from.Underlying(), to.Underlying()) {
					return x
				}
				return m.Term("conv:"+to.String(), to, x)
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch x := x.(type) {
			case int64:
				return float64(x)
			case float64:
				return x
			}
		}
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := x.(string); ok {
			// keep as a byte template: slice of bytes only when concrete
			if !HasHole(s) {
				et := to.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
				var vs []Value
				if et.Kind() == types.Int32 {
					for _, r := range s {
						vs = append(vs, int64(r))
					}
				} else {
					for _, b := range []byte(s) {
						vs = append(vs, int64(b))
					}
				}
				return m.MkSlice(vs...)
			}
			return &StrBytes{s}
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch x := x.(type) {
		case *StrBytes:
			return x.S
		case *Slice:
			var b []byte
			for _, v := range x.Values() {
				i, ok := v.(int64)
				if !ok {
					return m.Hole(m.Term("string", to, x))
				}
				if st, ok := from.Underlying().(*types.Slice); ok && st.Elem().Underlying().(*types.Basic).Kind() == types.Int32 {
					b = append(b, string(rune(i))...)
				} else {
					b = append(b, byte(i))
				}
			}
			return string(b)
		case *Sym:
			return m.Hole(m.Term("string", to, x))
		case Nil:
			return ""
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	m.abort("conversion of %s from %v to %v", Show(x), from, to)
	return nil
}

// StrBytes is a []byte view of a string template.
type StrBytes struct{ S string }

func (fr *frame) slice(in *ssa.Slice) Value {
	m := fr.m
	x := fr.get(in.X)
	bound := func(v ssa.Value, d int) (int, bool, Value) {
		if v == nil {
			return d, true, nil
		}
		b := fr.get(v)
		i, ok := b.(int64)
		return int(i), ok, b
	}
	switch s := x.(type) {
	case *RuneStr:
		return m.runeStrSlice(s, in, fr)
	case string:
		return m.strSlice(s, in.Low, in.High, fr)
	case *StrBytes:
		return &StrBytes{m.strSlice(s.S, in.Low, in.High, fr).(string)}
	case *Cell: // pointer to array
		a, ok := s.Get().(*Array)
		if !ok {
			m.abort("slice of %s", Show(s.V))
		}
		lo, ok1, _ := bound(in.Low, 0)
		hi, ok2, _ := bound(in.High, len(a.E))
		if !ok1 || !ok2 {
			m.abort("array slice bounds")
		}
		return &Slice{Arr: a, Off: lo, Len: hi - lo, Cap: len(a.E) - lo}
	case *Slice, *Sym, Nil:
		sl := m.AsSlice(x)
		lo, ok1, lv := bound(in.Low, 0)
		hi, ok2, hv := bound(in.High, sl.Len)
		if !ok1 || !ok2 {
			m.abort("slice bounds %s:%s", Show(lv), Show(hv))
		}
		if lo < 0 || hi < lo || hi > sl.Cap {
			panic(AbsPanic{V: &Iface{V: fmt.Sprintf("slice bounds out of range [%d:%d] cap %d", lo, hi, sl.Cap)}, Site: m.Where()})
		}
		if isNilV(x) {
			return x
		}
		return &Slice{Arr: sl.Arr, Off: sl.Off + lo, Len: hi - lo, Cap: sl.Cap - lo, Origin: sl.Origin}
	}
	m.abort("slice of %s", Show(x))
	return nil
}

func (m *Machine) strSlice(s string, lo, hi ssa.Value, fr *frame) Value {
	var l, h Value = int64(0), nil
	if lo != nil {
		l = fr.get(lo)
	}
	if hi != nil {
		h = fr.get(hi)
	}
	li, lok := l.(int64)
	if !HasHole(s) {
		hi := int64(len(s))
		hok := true
		if h != nil {
			hi, hok = h.(int64)
		}
		if lok && hok {
			if li < 0 || hi < li || hi > int64(len(s)) {
				panic(AbsPanic{V: &Iface{V: "string slice out of range"}, Site: m.Where()})
			}
			return s[li:hi]
		}
	}
	if lok && h == nil && int(li) <= len(litPrefix(s)) {
		return s[li:]
	}
	if lok && h != nil {
		if hi, ok := h.(int64); ok && int(hi) <= len(litPrefix(s)) && li <= hi {
			return s[li:hi]
		}
		// hi = len(s) - c with c within the literal suffix
		if hs, ok := h.(*Sym); ok && hs.Op == "+" {
			if c, ok := hs.Args[1].(int64); ok && c < 0 && keyOf(hs.Args[0]) == keyOf(m.StrLen(s)) &&
				int(-c) <= len(litSuffix(s)) && int(li) <= len(litPrefix(s)) && HasHole(s) {
				return s[li : len(s)+int(c)]
			}
		}
	}
	if h == nil {
		h = m.StrLen(s)
	}
	return m.Hole(m.Term("substr", types.Typ[types.String], s, l, h))
}

// StrLen is the abstract length of a template.
func (m *Machine) StrLen(s string) Value {
	if !HasHole(s) {
		return int64(len(s))
	}
	t := m.Term("len", types.Typ[types.Int], s)
	f := m.fact(t)
	n := int64(0)
	rest := s
	for {
		i := strings.Index(rest, holeL)
		if i < 0 {
			n += int64(len(rest))
			break
		}
		n += int64(i)
		rest = rest[i+strings.Index(rest[i:], holeR)+1:]
	}
	if f.lo < n {
		f.lo = n
	}
	return t
}

func (fr *frame) builtin(b *ssa.Builtin, in *ssa.Call) Value {
	m := fr.m
	var args []Value
	for _, a := range in.Call.Args {
		args = append(args, fr.get(a))
	}
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case string:
			return m.StrLen(x)
		case *StrBytes:
			return m.StrLen(x.S)
		case *RuneStr:
			return m.runeStrLen(x)
		case *Map:
			return int64(len(x.Keys))
		case Nil:
			return int64(0)
		case *Array:
			return int64(len(x.E))
		case *Cell:
			return int64(len(x.Get().(*Array).E))
		case *Slice:
			if b.Name() == "cap" {
				return int64(x.Cap)
			}
			return int64(x.Len)
		case *Sym:
			if _, ok := x.Typ.Underlying().(*types.Slice); ok {
				return int64(m.AsSlice(x).Len)
			}
			return m.Term("len", types.Typ[types.Int], x)
		}
	case "append":
		if sb, ok := args[1].(string); ok { // append([]byte, string...)
			args[1] = m.convert(sb, types.Typ[types.String], in.Type())
		}
		if isNilV(args[1]) {
			return args[0]
		}
		_, aSym := args[0].(*Sym)
		base, add := m.AsSlice(args[0]), m.AsSlice(args[1])
		if add.Len == 0 && (isNilV(args[0]) || aSym) {
			return args[0]
		}
		// in-place when capacity allows, as Go does
		if base.Off+base.Len+add.Len <= base.Off+base.Cap && base.Len+add.Len <= base.Cap {
			for i := 0; i < add.Len; i++ {
				m.store(base.Arr.E[base.Off+base.Len+i], m.copyVal(add.At(i).Get()))
			}
			return &Slice{Arr: base.Arr, Off: base.Off, Len: base.Len + add.Len, Cap: base.Cap, Origin: base.Origin}
		}
		a := &Array{E: make([]*Cell, 0, base.Len+add.Len)}
		for i := 0; i < base.Len; i++ {
			a.E = append(a.E, &Cell{ID: m.id(), V: m.copyVal(base.At(i).Get())})
		}
		for i := 0; i < add.Len; i++ {
			a.E = append(a.E, &Cell{ID: m.id(), V: m.copyVal(add.At(i).Get())})
		}
		n := len(a.E)
		k := n
		if st, ok := in.Type().Underlying().(*types.Slice); ok {
			k = growCap(base.Cap, n, int(sizes.Sizeof(st.Elem())))
			for len(a.E) < k {
				a.E = append(a.E, &Cell{ID: m.id(), V: m.Zero(st.Elem())})
			}
		}
		return &Slice{Arr: a, Len: n, Cap: k}
	case "copy":
		if s, ok := args[1].(string); ok {
			args[1] = m.convert(s, types.Typ[types.String], in.Call.Args[0].Type())
		}
		d, s := m.AsSlice(args[0]), m.AsSlice(args[1])
		n := d.Len
		if s.Len < n {
			n = s.Len
		}
		vals := s.Values()
		for i := 0; i < n; i++ {
			m.store(d.At(i), m.copyVal(vals[i]))
		}
		return int64(n)
	case "delete":
		if mp, ok := args[0].(*Map); ok {
			for i, k := range mp.Keys {
				if m.Truth(m.equal(k, args[1])) {
					m.frozenMap(mp)
					mp.Keys = append(mp.Keys[:i:i], mp.Keys[i+1:]...)
					mp.Vals = append(mp.Vals[:i:i], mp.Vals[i+1:]...)
					break
				}
			}
			return nil
		}
	case "close":
		if c, ok := args[0].(*Chan); ok {
			c.Closed = true
		}
		m.Events = append(m.Events, Event{Kind: "close", Args: args})
		return nil
	case "recover":
		// called from a deferred function: the panicking frame is the caller of that function
		if fr.caller != nil && fr.caller.panicking != nil && !fr.caller.recovered {
			fr.caller.recovered = true
			return fr.caller.panicking.V
		}
		return Nil{}
	case "print", "println":
		return nil
	case "min", "max":
		a, ok1 := args[0].(int64)
		c, ok2 := args[1].(int64)
		if ok1 && ok2 {
			if (a < c) == (b.Name() == "min") {
				return a
			}
			return c
		}
		return m.Term(b.Name(), in.Type(), args...)
	case "ssa:wrapnilchk":
		return args[0]
	}
	m.abort("builtin %s(%s)", b.Name(), Show(Tuple(args)))
	return nil
}
