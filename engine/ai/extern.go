package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ErrVal is an error created by the analysed program.
type ErrVal struct {
	ID   int
	Msg  string
	Site string
}

var errType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "errval", nil), types.NewStruct(nil, nil), nil)

// NewErr makes an error value.
func (m *Machine) NewErr(msg string) *Iface {
	return &Iface{T: errType, V: &ErrVal{ID: m.id(), Msg: msg, Site: m.Where()}}
}

// Err returns the error behind a value, if it is one.
func Err(v Value) *ErrVal {
	if i, ok := v.(*Iface); ok {
		if e, ok := i.V.(*ErrVal); ok {
			return e
		}
	}
	return nil
}

func fullName(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

// extern is the transfer function of code outside the tree.
func (m *Machine) extern(fn *ssa.Function, args []Value) Value {
	name := fullName(fn)
	if h, ok := m.ExtHooks[name]; ok {
		if v, ok := h(m, fn, args); ok {
			return v
		}
	}
	if v, ok := m.fold(name, args); ok {
		return v
	}
	if v, ok := m.runeExtern(name, args); ok {
		return v
	}
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		s, ok := args[i].(string)
		return s, ok
	}
	conc := func(i int) (string, bool) {
		s, ok := str(i)
		return s, ok && !HasHole(s)
	}
	bs := func(v Value) *Cell {
		c := m.Deref(v)
		return c
	}
	switch name {
	case "fmt.Sprintf":
		return m.sprintf(args[0], args[1])
	case "fmt.Sprint", "fmt.Sprintln":
		var p []string
		for _, v := range m.AsSlice(args[0]).Values() {
			p = append(p, m.fmtValue('v', v))
		}
		r := strings.Join(p, " ")
		if name == "fmt.Sprintln" {
			r += "\n"
		}
		return r
	case "fmt.Errorf":
		return m.NewErr(m.sprintf(args[0], args[1]).(string))
	case "errors.New":
		s, _ := str(0)
		return m.NewErr(s)
	case "fmt.Fprintf":
		m.Events = append(m.Events, Event{Kind: "print", Args: []Value{args[0], m.sprintf(args[1], args[2])}, Pos: m.pos()})
		m.bufAppend(args[0], m.sprintf(args[1], args[2]))
		return Tuple{m.freshValue("n", types.Typ[types.Int]), Nil{}}
	case "fmt.Fprintln", "fmt.Fprint":
		var p []string
		for _, v := range m.AsSlice(args[1]).Values() {
			p = append(p, m.fmtValue('v', v))
		}
		r := strings.Join(p, " ")
		if name == "fmt.Fprintln" {
			r += "\n"
		}
		m.Events = append(m.Events, Event{Kind: "print", Args: []Value{args[0], r}, Pos: m.pos(), Data: m.AsSlice(args[1]).Values()})
		m.bufAppend(args[0], r)
		return Tuple{m.freshValue("n", types.Typ[types.Int]), Nil{}}
	case "fmt.Printf":
		m.Events = append(m.Events, Event{Kind: "print", Args: []Value{"stdout", m.sprintf(args[0], args[1])}, Pos: m.pos()})
		return Tuple{m.freshValue("n", types.Typ[types.Int]), Nil{}}
	case "fmt.Println", "fmt.Print":
		var p []string
		for _, v := range m.AsSlice(args[0]).Values() {
			p = append(p, m.fmtValue('v', v))
		}
		m.Events = append(m.Events, Event{Kind: "print", Args: []Value{"stdout", strings.Join(p, " ")}, Pos: m.pos(), Data: m.AsSlice(args[0]).Values()})
		return Tuple{m.freshValue("n", types.Typ[types.Int]), Nil{}}
	case "strconv.Itoa":
		switch i := args[0].(type) {
		case int64:
			return strconv.FormatInt(i, 10)
		case *Sym:
			return m.Hole(i)
		}
	case "strconv.FormatInt":
		if b, ok := args[1].(int64); ok {
			switch i := args[0].(type) {
			case int64:
				return strconv.FormatInt(i, int(b))
			case *Sym:
				if b == 10 {
					return m.Hole(i)
				}
			}
		}
	case "strconv.Quote":
		if s, ok := conc(0); ok {
			return strconv.Quote(s)
		}
		return m.Hole(m.Term("quote", types.Typ[types.String], args[0]))
	case "strconv.ParseInt":
		base, _ := args[1].(int64)
		bits, _ := args[2].(int64)
		if s, ok := conc(0); ok {
			v, err := strconv.ParseInt(s, int(base), int(bits))
			if err != nil {
				return Tuple{v, m.NewErr("parseint")}
			}
			return Tuple{v, Nil{}}
		}
		m.Events = append(m.Events, Event{Kind: "parseint", Args: args, Pos: m.pos()})
		if bits == 0 {
			bits = 64
		}
		k := fmt.Sprintf("parseint(%s,%d,%d)", keyOf(args[0]), base, bits)
		if m.Decide("err:" + k) {
			return Tuple{m.freshValue("badint", types.Typ[types.Int64]), m.NewErr("parseint")}
		}
		t := m.Term("parseint", types.Typ[types.Int64], args[0], args[1])
		f := m.fact(t)
		lo, hi := int64(-1)<<(uint(bits)-1), int64(1)<<(uint(bits)-1)-1
		if f.lo < lo {
			f.lo = lo
		}
		if f.hi > hi {
			f.hi = hi
		}
		return Tuple{t, Nil{}}
	case "strconv.Unquote":
		if s, ok := conc(0); ok {
			v, err := strconv.Unquote(s)
			if err != nil {
				return Tuple{v, m.NewErr("unquote")}
			}
			return Tuple{v, Nil{}}
		}
		m.Events = append(m.Events, Event{Kind: "unquote", Args: args, Pos: m.pos()})
		if m.Decide("err:unquote(" + keyOf(args[0]) + ")") {
			return Tuple{"", m.NewErr("unquote")}
		}
		return Tuple{m.Hole(m.Term("unquote", types.Typ[types.String], args[0])), Nil{}}
	case "strings.Join":
		sep, ok := str(1)
		if ok {
			var p []string
			for _, v := range m.AsSlice(args[0]).Values() {
				s, ok := v.(string)
				if !ok {
					m.abort("strings.Join element %s", Show(v))
				}
				p = append(p, s)
			}
			return strings.Join(p, sep)
		}
	case "strings.Repeat":
		s, ok := str(0)
		n, ok2 := args[1].(int64)
		if ok && ok2 {
			return strings.Repeat(s, int(n))
		}
	case "strings.Replace", "strings.ReplaceAll":
		s, ok := conc(0)
		a, ok1 := conc(1)
		b, ok2 := str(2)
		n := int64(-1)
		if name == "strings.Replace" {
			n, _ = args[3].(int64)
		}
		if ok && ok1 && ok2 {
			return strings.Replace(s, a, b, int(n))
		}
		return m.Hole(m.Term("replace", types.Typ[types.String], args...))
	case "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.Title":
		if s, ok := conc(0); ok {
			switch name {
			case "strings.ToUpper":
				return strings.ToUpper(s)
			case "strings.ToLower":
				return strings.ToLower(s)
			case "strings.TrimSpace":
				return strings.TrimSpace(s)
			}
		}
		return m.Hole(m.Term(name, types.Typ[types.String], args...))
	case "strings.TrimSuffix", "strings.TrimPrefix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		s, ok := str(0)
		a, ok2 := conc(1)
		if ok && ok2 {
			switch name {
			case "strings.TrimSuffix":
				if !HasHole(s) || len(litSuffix(s)) >= len(a) {
					return strings.TrimSuffix(s, a)
				}
			case "strings.TrimPrefix":
				if !HasHole(s) || len(litPrefix(s)) >= len(a) {
					return strings.TrimPrefix(s, a)
				}
			default:
				if !HasHole(s) {
					switch name {
					case "strings.Trim":
						return strings.Trim(s, a)
					case "strings.TrimLeft":
						return strings.TrimLeft(s, a)
					default:
						return strings.TrimRight(s, a)
					}
				}
			}
		}
		return m.Hole(m.Term(name, types.Typ[types.String], args...))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		s, ok := str(0)
		a, ok2 := conc(1)
		if ok && ok2 {
			if !HasHole(s) {
				switch name {
				case "strings.HasPrefix":
					return strings.HasPrefix(s, a)
				case "strings.HasSuffix":
					return strings.HasSuffix(s, a)
				case "strings.Contains":
					return strings.Contains(s, a)
				}
				return strings.EqualFold(s, a)
			}
			if name == "strings.HasPrefix" && len(litPrefix(s)) >= len(a) {
				return strings.HasPrefix(s, a)
			}
			if name == "strings.HasSuffix" && len(litSuffix(s)) >= len(a) {
				return strings.HasSuffix(s, a)
			}
		}
		return m.Term(name, types.Typ[types.Bool], args...)
	case "strings.Count", "strings.Index", "strings.LastIndex":
		s, ok := conc(0)
		a, ok2 := conc(1)
		if ok && ok2 {
			switch name {
			case "strings.Count":
				return int64(strings.Count(s, a))
			case "strings.Index":
				return int64(strings.Index(s, a))
			}
			return int64(strings.LastIndex(s, a))
		}
		t := m.Term(name, types.Typ[types.Int], args...)
		f := m.fact(t)
		if f.lo < -1 {
			f.lo = -1
		}
		return t
	case "strings.Split", "strings.Fields":
		if s, ok := conc(0); ok {
			var p []string
			if name == "strings.Fields" {
				p = strings.Fields(s)
			} else if sep, ok := conc(1); ok {
				p = strings.Split(s, sep)
			}
			var vs []Value
			for _, x := range p {
				vs = append(vs, x)
			}
			return m.MkSlice(vs...)
		}
	case "bytes.NewBufferString":
		c := &Cell{ID: m.id(), Name: "buf"}
		s, _ := str(0)
		m.side[c] = s
		return c
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		c := bs(args[0])
		s, ok := str(1)
		if !ok {
			m.abort("WriteString of %s", Show(args[1]))
		}
		m.side[c] += s
		return Tuple{m.freshValue("n", types.Typ[types.Int]), Nil{}}
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		c := bs(args[0])
		switch i := args[1].(type) {
		case int64:
			m.side[c] += string(rune(i))
		case *Sym:
			m.side[c] += m.Hole(m.Term("string", types.Typ[types.String], i))
		}
		if strings.HasSuffix(name, "Byte") {
			return Nil{}
		}
		return Tuple{int64(1), Nil{}}
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return m.side[bs(args[0])]
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return m.StrLen(m.side[bs(args[0])])
	case "io.WriteString":
		if s, ok := str(1); ok {
			m.bufAppend(args[0], s)
			return Tuple{m.StrLen(s), Nil{}}
		}
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bufio.Writer).Write":
		if s, ok := m.bytesText(args[1]); ok {
			m.bufAppend(args[0], s)
			return Tuple{m.StrLen(s), Nil{}}
		}
		m.abort("Write of %s", Show(args[1]))
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		m.side[bs(args[0])] = ""
		return nil
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return nil
	case "(*bytes.Buffer).Bytes":
		return m.convert(m.side[bs(args[0])], types.Typ[types.String], fn.Signature.Results().At(0).Type())
	case "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		if i, ok := args[1].(int64); ok {
			m.bufAppend(args[0], string(rune(i)))
			if strings.HasSuffix(name, "Byte") {
				return Nil{}
			}
			return Tuple{int64(1), Nil{}}
		}
		m.abort("Write of %s", Show(args[1]))
	case "bufio.NewWriter", "bufio.NewWriterSize":
		c := &Cell{ID: m.id(), Name: "bufio"}
		return c
	case "(*bufio.Writer).WriteString":
		s, ok := str(1)
		if !ok {
			m.abort("WriteString of %s", Show(args[1]))
		}
		m.Events = append(m.Events, Event{Kind: "text", Args: []Value{s}, Pos: m.pos()})
		return Tuple{m.StrLen(s), Nil{}}
	case "(*bufio.Writer).Flush":
		return Nil{}
	case "unicode.IsDigit", "unicode.IsLetter", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower", "unicode.IsNumber":
		p := map[string]func(rune) bool{"unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter,
			"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsNumber": unicode.IsNumber}[name]
		switch r := args[0].(type) {
		case int64:
			return p(rune(r))
		case *Sym:
			return m.Pred(name, r, func(i int64) bool { return p(rune(i)) })
		}
	case "unicode/utf8.RuneCountInString":
		if s, ok := conc(0); ok {
			return int64(len([]rune(s)))
		}
	case "runtime.GOOS":
	case "math/rand.Uint64", "math/rand.Uint32", "math/rand.Int", "math/rand.Intn":
		return m.freshResult("rand", fn.Signature)
	case "os.Exit":
		m.Events = append(m.Events, Event{Kind: "exit", Args: args, Pos: m.pos()})
		panic(AbsPanic{V: &Iface{V: "os.Exit"}, Site: m.Where()})
	case "sort.Strings", "sort.Ints", "slices.Sort", "sort.Slice", "sort.SliceStable", "slices.SortFunc":
		if v, ok := m.sortExt(name, args); ok {
			return v
		}
	case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint64", "sync/atomic.AddUint32":
		c := m.Deref(args[0])
		nv := m.binop(token.ADD, c.Get(), args[1], fn.Signature.Results().At(0).Type(), fn.Signature.Results().At(0).Type())
		c.Set(nv)
		return nv
	case "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint64", "sync/atomic.LoadUint32":
		return m.Deref(args[0]).Get()
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return nil
	}
	if m.analysable(fn, args) {
		return m.body(nil, fn, args, nil)
	}
	m.Events = append(m.Events, Event{Kind: "extern", Fn: fn, Args: args, Data: name, Pos: m.pos()})
	return m.freshResult("ext:"+name, fn.Signature)
}

func (m *Machine) pos() token.Pos {
	if len(m.sites) == 0 {
		return token.NoPos
	}
	return m.sites[len(m.sites)-1]
}

func (m *Machine) sortExt(name string, args []Value) (Value, bool) {
	v := args[0]
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	s, ok := v.(*Slice)
	if !ok {
		return nil, isNilV(v)
	}
	vals := s.Values()
	for i := range vals {
		vals[i] = m.copyVal(vals[i])
	}
	switch name {
	case "sort.Strings", "slices.Sort", "sort.Ints":
		for _, x := range vals {
			if t, ok := x.(string); ok && HasHole(t) {
				return nil, true // some order: keep the given one
			}
			if _, ok := x.(*Sym); ok {
				return nil, true
			}
		}
		sort.SliceStable(vals, func(i, j int) bool {
			switch a := vals[i].(type) {
			case string:
				return a < vals[j].(string)
			case int64:
				return a < vals[j].(int64)
			}
			return false
		})
		for i := range vals {
			s.At(i).Set(vals[i])
		}
		return nil, true
	case "sort.Slice", "sort.SliceStable":
		// insertion sort driven by the program's comparator
		for i := 1; i < s.Len; i++ {
			for j := i; j > 0; j-- {
				if !m.Truth(m.callValue(nil, args[1], []Value{int64(j), int64(j - 1)})) {
					break
				}
				a, b := m.copyVal(s.At(j).Get()), m.copyVal(s.At(j-1).Get())
				s.At(j).Set(b)
				s.At(j - 1).Set(a)
			}
		}
		return nil, true
	}
	return nil, false
}

func (m *Machine) bufAppend(w, s Value) {
	if i, ok := w.(*Iface); ok {
		w = i.V
	}
	c, ok := w.(*Cell)
	if !ok {
		return
	}
	if t, ok := s.(string); ok {
		if c.Name == "bufio" {
			m.Events = append(m.Events, Event{Kind: "text", Args: []Value{t}, Pos: m.pos()})
			return
		}
		m.side[c] += t
	}
}

// bytesText is the text of a byte slice, if known.
func (m *Machine) bytesText(v Value) (string, bool) {
	if s, ok := v.(string); ok {
		return s, true
	}
	r := m.convert(v, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String])
	s, ok := r.(string)
	return s, ok
}

// analysable: a library function without transfer function is analysed from its source when its inputs are known.
func (m *Machine) analysable(fn *ssa.Function, args []Value) bool {
	if fn.Blocks == nil || fn.Pkg == nil || !purePkgs[fn.Pkg.Pkg.Path()] || fn.Name() == "init" {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		s := r.Type().String()
		if strings.Contains(s, "bytes.Buffer") || strings.Contains(s, "strings.Builder") {
			return false
		}
	}
	for _, a := range args {
		switch x := a.(type) {
		case *Sym:
			return false
		case string:
			if HasHole(x) {
				return false
			}
		}
	}
	return true
}

// Buffered returns what was written to a buffer object.
func (m *Machine) Buffered(c *Cell) string { return m.side[c] }

func (m *Machine) sprintf(f Value, va Value) Value {
	format, ok := f.(string)
	if !ok {
		m.abort("format %s", Show(f))
	}
	args := m.AsSlice(va).Values()
	var out strings.Builder
	ai := 0
	for i := 0; i < len(format); {
		c := format[i]
		if c == holeL[0] {
			j := strings.Index(format[i:], holeR)
			out.WriteString(format[i : i+j+1])
			i += j + 1
			continue
		}
		if c != '%' {
			out.WriteByte(c)
			i++
			continue
		}
		j := i + 1
		for j < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[j])) {
			j++
		}
		if j >= len(format) {
			out.WriteString("%!(NOVERB)")
			break
		}
		verb := format[j]
		flags := format[i+1 : j]
		i = j + 1
		if verb == '%' {
			out.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			out.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		s := m.fmtValue(verb, args[ai])
		ai++
		w, left := 0, false
		if strings.HasPrefix(flags, "-") {
			left = true
			flags = flags[1:]
		}
		zero := strings.HasPrefix(flags, "0")
		if n, err := strconv.Atoi(flags); err == nil {
			w = n
		}
		if HasHole(s) {
			if left && w > 0 {
				s += " "
			}
			out.WriteString(s)
			continue
		}
		n := len([]rune(s))
		for ; n < w; n++ {
			if left {
				s += " "
			} else if zero {
				s = "0" + s
			} else {
				s = " " + s
			}
		}
		out.WriteString(s)
	}
	return out.String()
}

// fmtValue renders a value under a verb.
func (m *Machine) fmtValue(verb byte, v Value) string {
	i, ok := v.(*Iface)
	if !ok {
		switch v := v.(type) {
		case Nil:
			return "<nil>"
		case *Sym:
			return m.Hole(m.Term("str", types.Typ[types.String], v))
		}
		return m.Hole(m.Term("str", types.Typ[types.String], v))
	}
	if e, ok := i.V.(*ErrVal); ok {
		return e.Msg
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, mn := range []string{"Error", "String"} {
			ms := m.P.Prog.MethodSets.MethodSet(i.T)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() != mn {
					continue
				}
				f := m.P.Prog.MethodValue(ms.At(k))
				if f == nil || f.Pkg == nil || !m.P.Local[f.Pkg] {
					continue
				}
				if !m.EvalStringer {
					return m.Hole(m.Term("str", types.Typ[types.String], i.V))
				}
				r, panicked := m.tryCall(f, []Value{i.V})
				if panicked { // fmt recovers panics of String and Error methods
					if isNilV(i.V) {
						return "<nil>"
					}
					return "%!" + string(verb) + "(PANIC=" + mn + " method: runtime error)"
				}
				if s, ok := r.(string); ok {
					return s
				}
			}
		}
	}
	switch x := i.V.(type) {
	case string:
		if verb == 'q' {
			if !HasHole(x) {
				return strconv.Quote(x)
			}
			return "\"" + x + "\""
		}
		return x
	case int64:
		switch verb {
		case 'x':
			return strconv.FormatInt(x, 16)
		case 'X':
			return strings.ToUpper(strconv.FormatInt(x, 16))
		case 'c':
			return string(rune(x))
		case 'q':
			return strconv.QuoteRune(rune(x))
		case 'b':
			return strconv.FormatInt(x, 2)
		}
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case *Sym:
		if verb == 'd' || verb == 'v' || verb == 's' {
			return m.Hole(x)
		}
		return m.Hole(m.Term("fmt:"+string(verb), types.Typ[types.String], x))
	}
	return m.Hole(m.Term("str", types.Typ[types.String], i.V))
}

func (m *Machine) tryCall(f *ssa.Function, args []Value) (v Value, panicked bool) {
	depth, ns := m.depth, len(m.stack)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(AbsPanic); !ok {
				panic(r)
			}
			m.depth = depth
			m.stack = m.stack[:ns]
			m.sites = m.sites[:ns]
			panicked = true
		}
	}()
	return m.Call(f, args), false
}

// Try calls a function and reports whether it panics.
func (m *Machine) Try(f func()) (p *AbsPanic) {
	depth, ns := m.depth, len(m.stack)
	defer func() {
		if r := recover(); r != nil {
			ap, ok := r.(AbsPanic)
			if !ok {
				panic(r)
			}
			m.depth = depth
			m.stack = m.stack[:ns]
			m.sites = m.sites[:ns]
			p = &ap
		}
	}()
	f()
	return nil
}
