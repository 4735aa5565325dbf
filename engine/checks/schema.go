package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/ai"
	"verif/engine/clara"
)

// Compiled is the summary of the compiler on a program schema.
type Compiled struct {
	Text   string   // emitted assembly
	Errs   []string // diagnostics
	Out    string   // reported output path
	Linked bool     // the linker was invoked
	Panic  string
	Where  string
	Und    string // analysis could not decide
	Stages []string
}

// prelude declares, with the library's signatures, what the compiler resolves by name.
const prelude = `
struct block { next: block header: int }
struct enum_ { tag: int _0: int _1: int _2: int _3: int _4: int }
fn unsafe(p: pointer, off: int, _type: nothing) pointer
fn getBlocks() block
fn claralloc(size: int, description: string, id: int) block = getBlocks()
#[ExtRet]
fn entrypoint(argc: int, argv: pointer, envp: pointer) { main() }
fn indexOutOfBounds(index: int, length: int) {}
fn asEnum(p: pointer) enum_ = unsafe(p, 0, type(enum_))
fn setElement«T»(src: []T, pos: int, val: T) []T { src[pos] = val return src }
fn arrayNoInit«T»(length: int) []T = unsafe(length, 0, type([]T))
fn invokeDynamic(p: pointer, arg1: int, arg2: int, arg3: int, arg4: int, arg5: int) {}
fn asm_entrypoint() int
`

// tokenKinds are the token kinds of the lexer's package by name.
func tokenKinds(p *ai.Program) map[string]int64 {
	return p.ConstsOf(p.Lex, func(n string, c *ssa.NamedConst) bool { return true })
}

type feed struct {
	toks []clara.Tok
	i    int
	path string
}

// tokenFeed replaces the lexer's channel by the language's token sequence (the lexer itself is C16).
func tokenFeed(m *ai.Machine, onErr func(string)) {
	p := m.P
	kinds := tokenKinds(p)
	lexFn, next := p.FuncIn(p.Lex, "Lex"), p.FuncIn(p.Lex, "Lexer.NextToken")
	if lexFn == nil || next == nil {
		panic(AnchorError{"lex.Lex/Lexer.NextToken"})
	}
	feeds := map[*ai.Cell]*feed{}
	lt := lexFn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	m.Hooks[lexFn] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		src, _ := args[0].(string)
		path, _ := args[1].(string)
		ts, err := clara.Lex(src)
		if err != nil {
			onErr(err.Error())
		}
		c := m.NewObj(lt, "lexer")
		feeds[c] = &feed{toks: ts, path: path}
		return c, true
	}
	tt := next.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	m.Hooks[next] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		f := feeds[m.Deref(args[0])]
		t := f.toks[f.i]
		if f.i < len(f.toks)-1 {
			f.i++
		}
		k, ok := kinds[t.Kind]
		if !ok {
			panic(AnchorError{"lex." + t.Kind})
		}
		c := m.NewObj(tt, "token")
		m.Set(c, "Kind", k)
		m.Set(c, "Val", t.Val)
		m.Set(c, "Line", int64(t.Line))
		m.Set(c, "Pos", int64(f.i))
		m.Set(c, "File", f.path)
		return c, true
	}
}

// compileSchema interprets the compiler's driver abstractly on the text.
func compileSchema(c *Ctx, src string, opt func(m *ai.Machine)) (r Compiled) {
	return compileFiles(c, []string{"/lib/prelude.clara", "/src/prog.clara"}, map[string]string{"/lib/prelude.clara": prelude, "/src/prog.clara": src}, opt)
}

func compileFiles(c *Ctx, order []string, files map[string]string, opt func(m *ai.Machine)) (r Compiled) {
	return compileEnv(c, order, files, func(m *ai.Machine, d *driver) {
		if opt != nil {
			opt(m)
		}
	})
}

func compileEnv(c *Ctx, order []string, files map[string]string, opt func(m *ai.Machine, d *driver)) (r Compiled) {
	comp := c.MustAnchor("Compile")
	last := ""
	budget := 20000000
	for _, f := range order {
		budget += 3000 * len(files[f])
	}
	n, ok := ai.Explore(c.P, 4, func(m *ai.Machine) { m.Covered = c.Funcs; m.Edges = c.Blocks; m.MaxSteps, m.ExtraDepth = budget, 4000 }, func(m *ai.Machine) {
		defer func() {
			if x := recover(); x != nil {
				if ap, ok := x.(ai.AbsPanic); ok {
					r.Panic, r.Where = ai.Show(ap.V), ap.Site
					return
				}
				panic(x)
			}
		}()
		r = Compiled{}
		env := driverEnv(m, files)
		opt(m, env)
		r = env.compile(comp, order, "/out")
		last = m.PathString()
	}, func(m *ai.Machine, a ai.Abort) { r.Und, r.Where = a.Reason, m.Where() })
	c.Traces += n
	if r.Und == "" && (n != 1 || !ok) {
		r.Und = fmt.Sprintf("the compiler is not deterministic for the schema (%d partitions: %s)", n, last)
	}
	return
}

// driver is the modelled world of the compiler's driver: files, the linker and random names.
type driver struct {
	m       *ai.Machine
	linked  bool
	lexErrs bool   // texts with lexical errors are meant
	fail    string // the outside operation that fails
	rnd     int64
	fresh   int
	Written []string   // names of the files created
	Linked  [][]string // linker command lines
}

// compile interprets one run of the driver.
func (d *driver) compile(comp *ssa.Function, order []string, out string) (r Compiled) {
	m := d.m
	d.linked, d.rnd = false, 0xF00D0000
	opts := m.Zero(comp.Params[0].Type())
	var libs []ai.Value
	for _, f := range order[:len(order)-1] {
		libs = append(libs, f)
	}
	m.Events = nil
	res := m.Call(comp, []ai.Value{opts, m.MkSlice(libs...), order[len(order)-1], m.MkSlice(), out, ai.Nil{}})
	r.Linked = d.linked
	t := res.(ai.Tuple)
	r.Out, _ = t[0].(string)
	if _, isNil := t[1].(ai.Nil); !isNil {
		for _, e := range m.AsSlice(t[1]).Values() {
			if ev := ai.Err(e); ev != nil {
				r.Errs = append(r.Errs, ev.Msg)
			} else {
				r.Errs = append(r.Errs, ai.Show(e))
			}
		}
	}
	var sb strings.Builder
	for _, e := range m.Events {
		if e.Kind == "text" {
			sb.WriteString(e.Args[0].(string))
		}
	}
	r.Text = sb.String()
	return
}

func driverEnv(m *ai.Machine, files map[string]string) *driver {
	d := &driver{m: m}
	m.EvalStringer = true
	m.InitGlobals()
	tokenFeed(m, func(e string) {
		if !d.lexErrs {
			panic("schema: " + e)
		}
	})
	nilErr := func(v ai.Value) ai.Value { return ai.Tuple{v, ai.Nil{}} }
	read := func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		s, ok := files[args[0].(string)]
		if d.fail == "read "+args[0].(string) {
			return ai.Tuple{ai.Nil{}, m.NewErr("cannot read " + args[0].(string))}, true
		}
		if !ok {
			panic(fmt.Sprint("schema reads ", args[0]))
		}
		return nilErr(&ai.StrBytes{S: s}), true
	}
	m.ExtHooks["io/ioutil.ReadFile"], m.ExtHooks["os.ReadFile"] = read, read
	file := func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		if d.fail == "create" {
			return ai.Tuple{ai.Nil{}, m.NewErr("cannot create")}, true
		}
		c := m.NewObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), "file")
		if len(args) == 2 { // a fresh name from a pattern
			dir, _ := args[0].(string)
			pat, _ := args[1].(string)
			if dir == "" {
				dir = "/tmp"
			}
			d.fresh++
			i := strings.LastIndex(pat, "*")
			if i < 0 {
				pat, i = pat+"*", len(pat)
			}
			c.Tag = fmt.Sprintf("%s/%s%d%s", dir, pat[:i], 100000+d.fresh, pat[i+1:])
		} else {
			c.Tag, _ = args[0].(string)
		}
		d.Written = append(d.Written, c.Tag)
		return nilErr(c), true
	}
	for _, n := range []string{"io/ioutil.TempFile", "os.CreateTemp", "os.Create"} {
		m.ExtHooks[n] = file
	}
	m.ExtHooks["(*os.File).Name"] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		return m.Deref(args[0]).Tag, true
	}
	none := func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) { return ai.Nil{}, true }
	for _, n := range []string{"(*os.File).Close", "os.Remove", "(*os.File).Sync"} {
		m.ExtHooks[n] = none
	}
	m.ExtHooks["path/filepath.Base"] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		s := args[0].(string)
		return s[strings.LastIndex(s, "/")+1:], true
	}
	m.ExtHooks["path/filepath.Ext"] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		s := args[0].(string)
		return s[strings.LastIndex(s, "."):], true
	}
	m.ExtHooks["path/filepath.Join"] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		var p []string
		for _, v := range m.AsSlice(args[0]).Values() {
			p = append(p, v.(string))
		}
		return strings.Join(p, "/"), true
	}
	m.ExtHooks["os/exec.Command"] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		var l []string
		for _, v := range m.AsSlice(args[1]).Values() {
			s, _ := v.(string)
			l = append(l, s)
		}
		d.Linked = append(d.Linked, l)
		return m.NewObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), "cmd"), true
	}
	link := func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) {
		if d.fail == "link" {
			e := m.NewErr("exit status 1")
			if fn.Signature.Results().Len() == 1 {
				return e, true
			}
			return ai.Tuple{&ai.StrBytes{S: "ld: bad"}, e}, true
		}
		d.linked = true
		if fn.Signature.Results().Len() == 1 {
			return ai.Nil{}, true
		}
		return nilErr(&ai.StrBytes{}), true
	}
	for _, n := range []string{"CombinedOutput", "Output", "Run"} {
		m.ExtHooks["(*os/exec.Cmd)."+n] = link
	}
	// random names are taken to be fresh
	for _, n := range []string{"Uint32", "Int31", "Int63", "Int", "Uint64"} {
		m.ExtHooks["math/rand."+n] = func(m *ai.Machine, fn *ssa.Function, args []ai.Value) (ai.Value, bool) { d.rnd++; return d.rnd, true }
	}
	return d
}

func CompileText(c *Ctx, src string) Compiled { return compileSchema(c, src, nil) }

func RunText(c *Ctx, src string) {
	runSchema(c, &Schema{"x", src, "x", nil}, cgOpts{Semantics: true, Roots: true})
}
