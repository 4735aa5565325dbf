package checks

import (
	"go/types"
	"strings"
	"verif/engine/ai"

	"golang.org/x/tools/go/ssa"
)

// reachable functions from the driver: mentioned functions, methods callable through interfaces, and functions the
// package initialisers put in tables.
func reachable(p *ai.Program, root *ssa.Function) map[*ssa.Function]bool {
	all := p.AllFuncs()
	byName := map[string][]*ssa.Function{}
	for _, f := range all {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil && (f.Pkg == nil || p.Local[f.Pkg]) {
			seen[f] = true
			work = append(work, f)
		}
	}
	visit := func(f *ssa.Function, calls bool) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if cc.Common().IsInvoke() {
						for _, g := range byName[cc.Common().Method.Name()] {
							add(g)
						}
					}
					if g := cc.Common().StaticCallee(); g != nil && !calls {
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						add(g)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					ms := p.Prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						add(p.Prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	for _, pk := range []*ssa.Package{p.Main, p.Lex} {
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init") {
				visit(f, false)
			}
		}
	}
	add(root)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		visit(f, true)
	}
	return seen
}

// sharedRoot follows an address or a container back to the package variable it is part of.
func sharedRoot(p *ai.Program, v ssa.Value, seen map[ssa.Value]bool) *ssa.Global {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Global:
		if p.Local[v.Pkg] {
			return v
		}
	case *ssa.FieldAddr:
		return sharedRoot(p, v.X, seen)
	case *ssa.IndexAddr:
		return sharedRoot(p, v.X, seen)
	case *ssa.UnOp:
		return sharedRoot(p, v.X, seen)
	case *ssa.Field:
		return sharedRoot(p, v.X, seen)
	case *ssa.Index:
		return sharedRoot(p, v.X, seen)
	case *ssa.Lookup:
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			return sharedRoot(p, v.X, seen)
		}
	case *ssa.Extract:
		return sharedRoot(p, v.Tuple, seen)
	case *ssa.Slice:
		return sharedRoot(p, v.X, seen)
	case *ssa.ChangeType:
		return sharedRoot(p, v.X, seen)
	case *ssa.TypeAssert:
		return sharedRoot(p, v.X, seen)
	case *ssa.MakeInterface:
		return sharedRoot(p, v.X, seen)
	case *ssa.ChangeInterface:
		return sharedRoot(p, v.X, seen)
	}
	return nil
}

// processWide are calls that change state of the whole process.
var processWide = map[string]bool{"os.Chdir": true, "os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "math/rand.Seed": true, "syscall.Chdir": true, "syscall.Setenv": true}

func init() {
	tableMins["C25"] = map[string]int{"no shared store": 500, "no process-wide effect": 80, "shared state unchanged": 300, "same program after another": 20, "own scratch files": 1}
	Registry["C25"] = func(c *Ctx) {
		comp := c.MustAnchor("Compile")
		fs := reachable(c.P, comp)
		for _, f := range c.P.AllFuncs() {
			if !fs[f] {
				continue
			}
			c.Funcs[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var g *ssa.Global
					switch in := in.(type) {
					case *ssa.Store:
						g = sharedRoot(c.P, in.Addr, map[ssa.Value]bool{})
					case *ssa.MapUpdate:
						g = sharedRoot(c.P, in.Map, map[ssa.Value]bool{})
					case ssa.CallInstruction:
						if bi, ok := in.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
							g = sharedRoot(c.P, in.Common().Args[0], map[ssa.Value]bool{})
							break
						}
						if sf := in.Common().StaticCallee(); sf != nil && sf.Pkg != nil && !c.P.Local[sf.Pkg] {
							n := sf.Pkg.Pkg.Path() + "." + sf.Name()
							c.Check(!processWide[n] || sf.Signature.Recv() != nil, "no process-wide effect", f.Name()+" calls "+n, c.P.Pos(in.Pos()), "compiling a program changes state of the whole process with %s", n)
						}
						continue
					default:
						continue
					}
					name := ""
					if g != nil {
						name = g.Name()
					}
					c.Check(g == nil, "no shared store", f.Name()+" changes "+name, c.P.Pos(in.Pos()), "%s, reachable from the compile driver, changes the package variable %s shared by all compilations", f.Name(), name)
				}
			}
		}
		var ss []*Schema
		for _, l := range [][]*Schema{forSchemas("f"), matchSchemas("m"), closureSchemas("c"), consSchemas(), placeSchemas("p"), scopeSchemas("s"), literalSchemas("l"), overloadSchemas("o"), stmtNesting("n"), nestingSchemas("n", intConstructs)} {
			ss = append(ss, thin(c, l)...)
		}
		h := shdr + "fn ov(x: int) int = x\nfn ov(x: string) string = x\n"
		for i, e := range anyExprs {
			for j, p := range anyPositions {
				if !c.Thorough && (i+j)%5 != 0 {
					continue
				}
				body := strings.Replace(strings.ReplaceAll(p, "%%", "%"), "%s", e, 1)
				ss = append(ss, &Schema{Name: body, Src: h + "fn t«T»(x: int, b: bool, ar: []int, pp: pt, g: fn(int) int, tt: T) { " + body + " }\nfn main() {}\n"})
			}
		}
		c.Parallel(len(ss), func(c *Ctx, i int) {
			bad := ""
			r := compileSchema(c, ss[i].Src, func(m *ai.Machine) {
				m.Freeze()
				m.OnFrozen = func(n, w string) {
					if bad == "" {
						bad = n + " at " + w
					}
				}
			})
			if r.Und != "" {
				c.Fail("shared state unchanged", ss[i].Name, r.Where, "undecided: %s", r.Und)
				return
			}
			c.Check(bad == "", "shared state unchanged", ss[i].Name, bad, "compiling the program changes %s, which other compilations use", bad)
		})
		// a program compiled after another one in the same process is compiled to the same code
		var ps []*Schema
		for i, s := range ss {
			if i%7 == 0 {
				ps = append(ps, s)
			}
		}
		c.Parallel(len(ps), func(c *Ctx, i int) {
			a, b := ps[i], ps[(i*5+3)%len(ps)]
			files := map[string]string{"/lib/prelude.clara": prelude, "/src/prog.clara": a.Src, "/other/prog.clara": b.Src}
			alone := compileSchema(c, a.Src, nil)
			var after Compiled
			und := ""
			ai.Explore(c.P, 4, func(m *ai.Machine) { m.MaxSteps, m.ExtraDepth = 60000000, 4000 }, func(m *ai.Machine) {
				d := driverEnv(m, files)
				run := func(p, out string) (r Compiled) {
					defer func() {
						if x := recover(); x != nil {
							if ap, ok := x.(ai.AbsPanic); ok {
								r.Panic = ai.Show(ap.V)
								return
							}
							panic(x)
						}
					}()
					return d.compile(comp, []string{"/lib/prelude.clara", p}, out)
				}
				run("/other/prog.clara", "/out2")
				n := len(d.Written)
				w1 := append([]string{}, d.Written...)
				after = run("/src/prog.clara", "/out")
				for _, x := range d.Written[n:] {
					for _, y := range w1 {
						c.Check(x != y, "own scratch files", "prog.clara in two directories", "", "two compilations of programs of the same name, for different output directories, write the same file %s", x)
					}
				}
			}, func(m *ai.Machine, a ai.Abort) { und = a.Reason + " at " + m.Where() })
			name := a.Name + " after " + b.Name
			if und != "" || alone.Und != "" {
				c.Fail("same program after another", name, "", "undecided: %s%s", und, alone.Und)
				return
			}
			same := alone.Text == after.Text && alone.Panic == after.Panic && strings.Join(alone.Errs, "\n") == strings.Join(after.Errs, "\n") && alone.Linked == after.Linked
			c.Check(same, "same program after another", name, "", "the program compiles differently after another compilation in the same process: %s", firstDiff(alone.Text+strings.Join(alone.Errs, "\n"), after.Text+strings.Join(after.Errs, "\n")))
		})
	}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return "only alone: " + x[i]
		}
		if x[i] != y[i] {
			return "alone: " + x[i] + "; after: " + y[i]
		}
	}
	return "more output after the other"
}

// thin keeps every schema in a thorough run and an even selection otherwise.
func thin(c *Ctx, l []*Schema) []*Schema {
	n := 40
	if c.Thorough || len(l) <= n {
		return l
	}
	var r []*Schema
	for i := 0; i < n; i++ {
		r = append(r, l[i*len(l)/n])
	}
	return r
}
