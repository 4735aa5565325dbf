package checks

import (
	"debug/elf"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/engine/asmx"
	"verif/engine/clara"
)

const libMain = "fn main() {}\n"

// compileLib interprets the compiler on the installed library and a program.
func compileLib(c *Ctx, src string) Compiled {
	fs, _ := filepath.Glob(filepath.Join(c.P.Dir, "install", "lib", "*.clara"))
	sort.Strings(fs)
	files := map[string]string{"/src/prog.clara": src}
	var order []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(AnchorError{f})
		}
		n := "/lib/" + filepath.Base(f)
		files[n] = string(b)
		order = append(order, n)
	}
	return compileFiles(c, append(order, "/src/prog.clara"), files, nil)
}

// libProgram is the library's emitted code with the library's source.
func libProgram(c *Ctx, rule, src string) (*asmx.Program, *SProg) {
	r := compileLib(c, src)
	if !c.Check(r.Und == "" && r.Panic == "" && len(r.Errs) == 0, rule, "the library compiles", r.Where, "%s %s %s", r.Und, r.Panic, strings.Join(r.Errs, "; ")) {
		return nil, nil
	}
	p := asmx.Parse(r.Text)
	for _, e := range p.Errs {
		c.Fail(rule, "library", "", "emitted text is not an instruction: %s", e)
		return nil, nil
	}
	lib := loadLib(c)
	own := parseSchema(src)
	lib.Decls = append(lib.Decls, own.Decls...)
	for n, ds := range own.Fns {
		lib.Fns[n] = append(lib.Fns[n], ds...)
	}
	return p, lib
}

// routines are the functions the generator writes itself: the words they take and the code that defines them.
var routines = []struct {
	name, params, ret, ref string
}{
	{"readInt", "pi", "i", "sarq $1, %rsi\nmovq (%rdi,%rsi,8), %rax\n"},
	{"readByte", "pi", "i", "sarq $1, %rsi\nmovsbq (%rdi,%rsi,1), %rax\n"},
	{"writeInt", "pii", "", "sarq $1, %rsi\nmovq %rdx, (%rdi,%rsi,8)\n"},
	{"writeByte", "pii", "", "sarq $1, %rsi\nmovb %dl, (%rdi,%rsi,1)\n"},
	{"unsafe", "pi-", "p", "sarq $1, %rsi\nleaq (%rdi,%rsi,1), %rax\n"},
	{"toTaggedInt", "p", "i", "leaq 1(%rdi,%rdi,1), %rax\n"},
	{"toUntaggedInt", "p", "i", "movq %rdi, %rax\nsarq $1, %rax\n"},
	{"getFramePointer", "", "p", "movq %rbp, %rax\n"},
}

func wordClass(t *ctype) string {
	if t == nil || t.Name == "nothing" {
		return "-"
	}
	if t.K == "named" && (t.Name == "int" || t.Name == "bool") {
		return t.Name[:1]
	}
	return "p"
}

func runRoutine(w *asmx.World, p *asmx.Program, label, params string, callee func(string, asmx.Poly) (asmx.Callee, error)) (m *asmx.Machine, exit, msg string) {
	m = asmx.NewMachine(w, p)
	m.Callees = callee
	for i, k := range params {
		kind := map[rune]string{'p': "ptr", 'i': "int", 'r': "raw"}[k]
		if kind != "" {
			m.Reg[argRegs[i]] = w.Word(fmt.Sprintf("p%d", i), kind)
		}
	}
	msg = guard(func() { exit = m.Run(label) })
	return
}

func sameEvents(w *asmx.World, a, b []asmx.Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Kind != b[i].Kind || a[i].Bytes != b[i].Bytes || !w.Eq(a[i].Addr, b[i].Addr) || !w.Eq(a[i].Val, b[i].Val) {
			return false
		}
	}
	return true
}

func checkRoutines(c *Ctx, rule string, p *asmx.Program, lib *SProg) {
	for _, r := range routines {
		where := "codegen.go: " + r.name
		var d *clara.Decl
		for _, x := range lib.Fns[r.name] {
			if x.Extern {
				d = x
			}
		}
		if _, ok := p.Labels[r.name]; d == nil && !ok {
			continue // neither side knows it
		}
		if d != nil {
			ps := ""
			for _, q := range d.Params {
				ps += wordClass(q.T)
			}
			if len(r.params) == len(ps) && strings.HasSuffix(r.params, "-") {
				ps = ps[:len(ps)-1] + "-"
			}
			c.Check(ps == r.params, rule, r.name+" parameters", d.File, "the library declares the words (%s), the routine takes (%s)", ps, r.params)
			want := r.ret
			if want == "" {
				want = "-"
			}
			c.Check(wordClass(d.Ret) == want, rule, r.name+" result", d.File, "the library declares a result of class %s, the routine gives %s", wordClass(d.Ret), want)
			c.Check(!hasAttr(d, "RawValues"), rule, r.name+" arguments", d.File, "declared with raw values, but the routine takes tagged integers")
		}
		w := asmx.NewWorld(nil)
		m, exit, msg := runRoutine(w, p, r.name, r.params, nil)
		if !c.Check(msg == "", rule, r.name, where, "%s", msg) {
			continue
		}
		m2, _, msg2 := runRoutine(w, asmx.Parse("ref:\n"+r.ref+"ret\n"), "ref", r.params, nil)
		if msg2 != "" {
			panic(msg2)
		}
		c.Check(exit == "ret", rule, r.name+" return", where, "leaves by %q, its callers expect no collector word", exit)
		if r.ret != "" {
			c.Check(w.Eq(m.Reg["rax"], m2.Reg["rax"]), rule, r.name, where, "gives %s instead of %s", m.Reg["rax"], m2.Reg["rax"])
		}
		c.Check(sameEvents(w, m.Events, m2.Events), rule, r.name+" effects", where, "writes %v instead of %v", m.Events, m2.Events)
		c.Sample(rule, r.name)
	}
}

// checkEntry follows the way from the C main function to the library's entry function.
func checkEntry(c *Ctx, rule string, p *asmx.Program, lib *SProg, cs map[string]*CFn) {
	mn := cs["main"]
	if mn == nil {
		c.Fail(rule, "main", "install/init", "no main function")
		return
	}
	re := regexp.MustCompile(`call .*@(\w+)\((.*)\)`)
	n, sym := 0, ""
	for _, l := range mn.Body {
		m := re.FindStringSubmatch(l)
		if m == nil || !strings.Contains(l, "@clara_") {
			continue
		}
		n++
		sym = m[1]
		var got, want []string
		for _, a := range splitTopC(m[2]) {
			got = append(got, lastWord(a))
		}
		for _, a := range mn.Params {
			want = append(want, lastWord(a))
		}
		c.Check(strings.Join(got, " ") == strings.Join(want, " ") && len(want) == 3, rule, "C main", mn.File, "calls %s with %v, its own parameters are %v", sym, got, want)
	}
	if !c.Check(n == 1, rule, "C main", mn.File, "%d calls of the program's entry", n) {
		return
	}
	if _, ok := p.Labels[sym]; !c.Check(ok, rule, sym, "codegen.go genAsmEntrypoint", "%s is not emitted", sym) {
		return
	}
	d := libFn(lib, "entrypoint")
	c.Check(hasAttr(d, "ExtRet"), rule, "entrypoint", d.File, "is called without a collector word but not declared #[ExtRet]")
	ps := ""
	for _, q := range d.Params {
		ps += wordClass(q.T)
	}
	c.Check(ps == "ipp", rule, "entrypoint parameters", d.File, "takes the words (%s)", ps)
	w := asmx.NewWorld(nil)
	m, exit, msg := runRoutine(w, p, sym, "rpp", func(t string, v asmx.Poly) (asmx.Callee, error) {
		if !symMatch("entrypoint", false, t) {
			return asmx.Callee{}, fmt.Errorf("calls %s", t)
		}
		return asmx.Callee{}, nil
	})
	where := "codegen.go genAsmEntrypoint"
	if !c.Check(msg == "" && exit == "ret", rule, sym, where, "%s leaves by %q", msg, exit) {
		return
	}
	if !c.Check(len(m.Events) == 1 && m.Events[0].Kind == "call", rule, sym, where, "%d effects", len(m.Events)) {
		return
	}
	e := m.Events[0]
	for i, want := range []asmx.Poly{tagW(asmx.Atom("p0")), asmx.Atom("p1"), asmx.Atom("p2")} {
		c.Check(w.Eq(e.Regs[argRegs[i]], want), rule, sym+" passes its arguments", where, "argument %d is %s instead of %s", i+1, e.Regs[argRegs[i]], want)
	}
}

// proto is a C function's type.
type proto struct {
	ret    string
	params []string
	varg   bool
	file   string
}

func cProto(f *CFn) proto {
	r := proto{ret: f.Ret, file: f.File}
	for _, q := range f.Params {
		if q == "..." {
			r.varg = true
			continue
		}
		r.params = append(r.params, strings.Fields(q)[0])
	}
	return r
}

var declRe = regexp.MustCompile(`(?m)^declare (.*?)@(\w+)\((.*?)\)`)

// headerProto is the type the system's headers give a C library function.
func headerProto(name string) (r proto, ok bool) {
	src := "#define _GNU_SOURCE\n#include <stdlib.h>\n#include <stdio.h>\n#include <string.h>\n#include <unistd.h>\n#include <fcntl.h>\n#include <errno.h>\n#include <time.h>\n#include <sys/time.h>\n#include <sys/stat.h>\n#include <sys/types.h>\n#include <math.h>\n#include <ctype.h>\nvoid *use = (void*)" + name + ";\n"
	cmd := exec.Command("clang", "-x", "c", "-O0", "-S", "-emit-llvm", "-w", "-o", "-", "-")
	cmd.Stdin = strings.NewReader(src)
	out, err := cmd.Output()
	if err != nil {
		return
	}
	for _, m := range declRe.FindAllStringSubmatch(string(out), -1) {
		if m[2] != name {
			continue
		}
		r = proto{ret: lastWord(m[1]), file: "system headers"}
		for _, q := range splitTopC(m[3]) {
			if q = strings.TrimSpace(q); q == "..." {
				r.varg = true
			} else if q != "" {
				r.params = append(r.params, strings.Fields(q)[0])
			}
		}
		return r, true
	}
	return
}

func libcSyms() map[string]bool {
	out, err := exec.Command("gcc", "-print-file-name=libc.so.6").Output()
	if err != nil {
		panic(AnchorError{"gcc"})
	}
	f, err := elf.Open(strings.TrimSpace(string(out)))
	if err != nil {
		panic(AnchorError{"libc.so.6"})
	}
	defer f.Close()
	r := map[string]bool{}
	ss, _ := f.DynamicSymbols()
	for _, s := range ss {
		if s.Section != elf.SHN_UNDEF {
			r[s.Name] = true
		}
	}
	return r
}

// checkExterns: everything one side calls exists on the other with the same words.
func checkExterns(c *Ctx, p *asmx.Program, lib *SProg, cs map[string]*CFn) {
	libc := libcSyms()
	rule := "symbols"
	for _, s := range references(p) {
		_, here := p.Labels[s]
		_, inC := cs[s]
		c.Check(here || inC || libc[s], rule, s, "emitted code", "%s is used but neither emitted nor defined in C", s)
	}
	for _, f := range cs {
		for _, l := range f.Body {
			for _, m := range regexp.MustCompile(`@(clara_\w+)`).FindAllStringSubmatch(l, -1) {
				_, ok := p.Labels[m[1]]
				c.Check(ok, rule, m[1], f.File, "%s is used by C code but not emitted", m[1])
			}
		}
	}
	rule = "external functions"
	for _, n := range sortedFns(lib) {
		for _, d := range lib.Fns[n] {
			if !d.Extern || d.File == "" {
				continue
			}
			inst := declSig(d)
			if _, ok := p.Labels[d.Name]; ok {
				c.Ok(rule)
				continue // a routine
			}
			if len(d.Params) == 0 && !referenced(p, d.Name) {
				c.Ok(rule)
				continue // a reserved name
			}
			var pr proto
			f, ok := cs[d.Name]
			if ok {
				pr = cProto(f)
			} else if pr, ok = headerProto(d.Name); !ok {
				c.Check(libc[d.Name] || !referenced(p, d.Name), rule, inst, d.File, "defined nowhere")
				continue
			}
			raw := hasAttr(d, "RawValues")
			c.Check(len(d.Params) == len(pr.params) || pr.varg && len(d.Params) > len(pr.params), rule, inst, d.File, "%d parameters, the C function (%s) has %v", len(d.Params), pr.file, pr.params)
			for i, q := range d.Params {
				k := wordClass(q.T)
				seq := isSeq(q.T)
				if k == "i" || seq {
					c.Check(raw, rule, inst, d.File, "parameter %s is handed over in the program's representation, not as a C value", q.Name)
				}
				if i < len(pr.params) && k == "p" {
					c.Check(pr.params[i] == "ptr" || pr.params[i] == "i64", rule, inst, d.File, "parameter %s is an address, the C function takes %s", q.Name, pr.params[i])
				}
			}
			switch wordClass(d.Ret) {
			case "-":
			case "i":
				c.Check(raw && pr.ret != "void", rule, inst, d.File, "the int result is not tagged, or the C function gives none (%s)", pr.ret)
			case "p":
				c.Check(pr.ret == "ptr" || pr.ret == "i64", rule, inst, d.File, "the result is an address, the C function gives %s", pr.ret)
			default:
				c.Check(pr.ret != "void", rule, inst, d.File, "the C function gives no result")
			}
			c.Ok(rule)
			c.Sample(rule, inst)
		}
	}
}

func sortedFns(p *SProg) []string {
	var r []string
	for n := range p.Fns {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func referenced(p *asmx.Program, s string) bool {
	for _, r := range references(p) {
		if r == s {
			return true
		}
	}
	return false
}

var symRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.$]*$`)

// references are the symbols instructions and data use.
func references(p *asmx.Program) []string {
	seen := map[string]bool{}
	var r []string
	add := func(s string) {
		s = strings.TrimPrefix(s, "$")
		if symRe.MatchString(s) && !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	for _, l := range p.Lines {
		if l.Dir == ".8byte" || l.Dir == ".quad" {
			for _, a := range l.Args {
				add(a)
			}
		}
		for _, o := range l.Ops {
			switch o.Kind {
			case "sym", "imm":
				add(o.Sym)
			}
		}
	}
	sort.Strings(r)
	return r
}

// checkHeaders: what precedes every function that can be a value, as the library reads it.
func checkHeaders(c *Ctx, rule string, p *asmx.Program, lib *SProg, ds []typeDesc) {
	glob := map[string]bool{}
	for _, l := range p.Lines {
		if l.Dir == ".globl" && len(l.Args) == 1 {
			glob[l.Args[0]] = true
		}
	}
	kinds := map[int64]bool{}
	for i, l := range p.Lines {
		if l.Label == "" || !glob[l.Label] || !strings.HasPrefix(l.Label, "clara_") {
			continue
		}
		j := i - 1
		for j > 0 && (p.Lines[j].Dir == ".globl" || p.Lines[j].Dir == ".type") {
			j--
		}
		h := p.Lines[j]
		if !c.Check(h.Dir == ".8byte" && len(h.Args) == 1, rule, "function header", "asm.go fnStart", "%s has no header word", l.Label) {
			return
		}
		v, err := strconv.ParseUint(h.Args[0], 0, 64)
		if !c.Check(err == nil && v&1 == 1, rule, "function header", "asm.go fnStart", "%s has the header %s", l.Label, h.Args[0]) {
			return
		}
		a := p.Lines[j-1]
		n := 0
		if a.Dir == ".align" && len(a.Args) > 0 {
			n, _ = strconv.Atoi(a.Args[0])
		}
		c.Check(n >= 8 && n&(n-1) == 0, rule, "function alignment", "asm.go fnStart", "%s is not aligned to a word, so its address is not recognised as an object", l.Label)
		hd := int64(v) >> 1
		id := hd >> typeShift
		kinds[id] = true
		c.Check(hd&3 == 2, rule, "function header", "asm.go fnStart", "%s: the header %#x is not that of an unmarked read-only object", l.Label, hd)
		c.Check(id >= 0 && id < int64(len(ds)) && ds[id].Tag == 3, rule, "function header", "asm.go fnStart", "%s: type %d is not the function type", l.Label, id)
	}
	c.Check(len(kinds) > 0, rule, "function header", "asm.go fnStart", "no functions are emitted")
	img := p.Data()
	for _, l := range p.Lines {
		if l.Label == "" || glob[l.Label] {
			continue
		}
		at, ok := img.Addr(l.Label)
		if !ok || !strings.Contains(l.Label, "string") {
			continue
		}
		if _, h, err := img.Str(at); err == nil {
			hd := h >> 1
			id := hd >> typeShift
			c.Check(h&1 == 1 && hd&3 == 2 && id >= 0 && id < int64(len(ds)) && ds[id].Tag == 1, rule, "string literal header", "asm.go", "%s has the header %#x", l.Label, h)
		}
	}
}

// checkShapes: the library functions that stand for language constructs.
func checkShapes(c *Ctx, rule string, lib *SProg) {
	e, ok := lib.Types["enum_"]
	if !c.Check(ok, rule, "enum view", "install/lib", "no struct enum_") {
		return
	}
	c.Check(len(e.Params) >= 6, rule, "enum view", e.File, "%d words, an enum value has up to 6", len(e.Params))
	each := func(name string, visit func(d *clara.Decl, x *libPath, vs []SV)) {
		d := libFn(lib, name)
		var vs []SV
		n, complete := exploreLib(lib, d, func(l *libRun) []SV {
			vs = l.params(d)
			return vs
		}, 64, func(x *libPath) {
			if c.Check(x.Exit != "fault" && x.Exit != "cut", rule, name, d.File, "%s %s", x.Exit, x.Msg) {
				visit(d, x, vs)
			}
		})
		c.Traces += n
		c.Check(complete, rule, name, d.File, "undecided: more than %d paths", n)
		c.Sample(rule, name)
	}
	each("asEnum", func(d *clara.Decl, x *libPath, vs []SV) {
		c.Check(x.Exit == "return" && x.Ret.Eq(vs[0].P) && len(x.L.Ev) == 0, rule, "asEnum", d.File, "%s gives %s instead of the value", x.Exit, x.Ret)
	})
	each("setElement", func(d *clara.Decl, x *libPath, vs []SV) {
		if !c.Check(len(vs) == 3, rule, "setElement", d.File, "%d parameters", len(vs)) {
			return
		}
		i := untagW(x.L.W, vs[1].P)
		n := untagW(x.L.W, x.L.mem[vs[0].P.Key()])
		in, err := x.L.W.Truth(x.L.W.Ult(i, n))
		if err != nil {
			c.Fail(rule, "setElement", d.File, "the index is not tested")
			return
		}
		var st []LEvent
		for _, e := range x.L.Ev {
			if e.Kind == "store" || e.Kind == "alloc" || strings.HasPrefix(e.Kind, "write") {
				st = append(st, e)
			}
		}
		if !in {
			c.Check(x.Exit == "stop" && len(st) == 0, rule, "setElement", d.File, "%s for an index out of bounds", x.Exit)
			return
		}
		at := vs[0].P.Add(konst(8)).Add(i.Scale(8))
		c.Check(x.Exit == "return" && x.Ret.Eq(vs[0].P), rule, "setElement result", d.File, "%s gives %s instead of the array", x.Exit, x.Ret)
		c.Check(len(st) == 1 && x.L.W.Eq(st[0].Addr, at) && x.L.W.Eq(st[0].Val, vs[2].P), rule, "setElement effect", d.File, "writes %v instead of the element", st)
	})
	alloc := libFn(lib, "claralloc")
	d := libFn(lib, "arrayNoInit")
	for k := int64(1); k <= 9; k++ {
		sizes := map[string]LEvent{}
		exploreLib(lib, d, func(l *libRun) []SV {
			for k := range sizes {
				delete(sizes, k)
			}
			l.hookAlloc(alloc, sizes)
			return []SV{{tagW(konst(k)), cInt}}
		}, 64, func(x *libPath) {
			c.Traces++
			if !c.Check(x.Exit == "return", rule, "arrayNoInit", d.File, "%s %s", x.Exit, x.Msg) {
				return
			}
			n := 0
			for _, e := range x.L.Ev {
				if e.Kind == "claralloc" {
					n++
					sz, ok := e.Size.IsConst()
					c.Check(ok && sz >= 8+8*k && x.Ret.Eq(e.Addr), rule, "arrayNoInit object", d.File, "gives %s, allocated with %s bytes for %d elements", x.Ret, e.Size, k)
				}
			}
			c.Check(n == 1, rule, "arrayNoInit object", d.File, "%d allocations", n)
			c.Check(x.L.mem[x.Ret.Key()].Eq(tagW(konst(k))), rule, "arrayNoInit length", d.File, "the length is %s instead of %d", x.L.mem[x.Ret.Key()], k)
		})
	}
}

// checkDispatch: calling a function value runs its code, with its environment if it has one.
func checkDispatch(c *Ctx, rule string, lib *SProg) {
	d := libFn(lib, "invokeDynamic")
	if !c.Check(len(d.Params) >= 2, rule, "parameters", d.File, "%d parameters", len(d.Params)) {
		return
	}
	for _, closure := range []bool{false, true} {
		inst := "function"
		if closure {
			inst = "closure"
		}
		for _, mark := range []bool{false, true} {
			var vs []SV
			var f, env asmx.Poly
			n, complete := exploreLib(lib, d, func(l *libRun) []SV {
				vs = l.params(d)
				p := vs[0].P
				f, env = l.obj("CODE"), l.obj("ENV")
				l.set(p.Sub(konst(8)), headerWord(l.num("id", 0, 1<<15-1), !closure, mark && closure))
				l.set(p, f)
				l.set(p.Add(konst(8)), env)
				return vs
			}, 64, func(x *libPath) {
				if !c.Check(x.Exit == "return", rule, inst, d.File, "%s %s", x.Exit, x.Msg) {
					return
				}
				var calls []LEvent
				for _, e := range x.L.Ev {
					switch e.Kind {
					case "call":
						calls = append(calls, e)
					case "store", "alloc", "claralloc":
						c.Fail(rule, inst, d.File, "performs a %s", e.Kind)
						return
					}
				}
				want := []asmx.Poly{}
				target := vs[0].P
				if closure {
					target = f
					want = append(want, env)
				}
				for _, v := range vs[1:] {
					want = append(want, v.P)
				}
				if !c.Check(len(calls) == 1 && calls[0].Addr.Eq(target), rule, inst, d.File, "calls %v instead of %s", calls, target) {
					return
				}
				ok := len(calls[0].Args) == len(want)
				for i := range want {
					ok = ok && x.L.W.Eq(calls[0].Args[i], want[i])
				}
				c.Check(ok, rule, inst, d.File, "passes %v instead of %v", calls[0].Args, want)
				c.Sample(rule, inst)
			})
			c.Traces += n
			c.Check(complete, rule, inst, d.File, "undecided: more than %d paths", n)
		}
	}
}

// dispatchResult: the emitted dispatcher hands back the result of the call it makes last.
func dispatchResult(c *Ctx, rule string, p *asmx.Program) {
	for l := range p.Labels {
		if !symMatch("invokeDynamic", false, l) {
			continue
		}
		var prefix []int
		for n := 0; n < 64; n++ {
			w := asmx.NewWorld(prefix)
			m := asmx.NewMachine(w, p)
			m.Reg["rdi"] = w.Word("p0", "ptr")
			for i, r := range argRegs[1:] {
				m.Reg[r] = w.Word(fmt.Sprintf("p%d", i+1), "raw")
			}
			m.Callees = func(t string, v asmx.Poly) (asmx.Callee, error) {
				kind := "raw"
				if symMatch("isClosure", false, t) {
					kind = "bool"
				}
				return asmx.Callee{Clara: t == "*" || strings.HasPrefix(t, "clara_"), Result: kind}, nil
			}
			exit := ""
			if msg := guard(func() { exit = m.Run(l) }); !c.Check(msg == "", rule, l, "", "%s", msg) {
				return
			}
			last := -1
			for i, e := range m.Events {
				if e.Kind == "call" && e.Target == "*" {
					last = i
				}
			}
			if c.Check(last >= 0 && exit == "skip", rule, l, "install/lib", "no function value is called (leaves by %q)", exit) {
				k := 0
				for _, e := range m.Events[:last+1] {
					if e.Kind == "call" {
						k++
					}
				}
				c.Check(m.Reg["rax"].Eq(asmx.Atom(fmt.Sprintf("r%d", k))), rule, l, "codegen.go", "the result register holds %s, not the called function's result", m.Reg["rax"])
			}
			var more bool
			if prefix, more = w.Next(); !more {
				return
			}
		}
	}
}

// collectorFns run inside a collection or allocation, where no other one starts (C23).
func collectorFns(lib *SProg) map[*clara.Decl]bool {
	alloc := libFn(lib, "claralloc")
	r := reachDecls(lib, alloc)
	r[alloc] = true
	return r
}

// noCollect lists the functions in which no collection can start: no allocation, no construction and no call of a function value is reachable.
func noCollect(lib *SProg) map[*clara.Decl]bool {
	alloc := libFn(lib, "claralloc")
	own := map[*clara.Decl]bool{}
	for _, d := range lib.Decls {
		if d.Op != "fn" || d.Extern {
			continue
		}
		ok := d != alloc
		walkDecl(d, func(x *clara.Expr) {
			name := ""
			switch {
			case x.Op == "call" && x.K[0].Op == "id":
				name = x.K[0].Val
			case x.Op == "mcall", x.Op == "id":
				name = x.Val
			case x.Op == "call", x.Op == "arrlit", x.Fn != nil:
				ok = false
			}
			if x.Op != "id" && name != "" && len(lib.Fns[name]) == 0 {
				ok = false // a function value
			}
			for _, f := range lib.Fns[name] {
				if f.Op != "fn" {
					ok = false // a constructor
				}
			}
			if x.Op == "call" || x.Op == "mcall" {
				for _, p := range d.Params {
					if p.Name == name && p.T.K == "fn" {
						ok = false
					}
				}
			}
		})
		own[d] = ok
	}
	r := map[*clara.Decl]bool{}
	for d, ok := range own {
		for k := range reachDecls(lib, d) {
			ok = ok && own[k]
		}
		if ok {
			r[d] = true
		}
	}
	return r
}

func init() {
	Registry["C05"] = func(c *Ctx) {
		p, lib := libProgram(c, "library code", libMain)
		if p == nil {
			return
		}
		cs := loadC(c)
		compareProg(c, &Schema{Name: "library", Rule: "library code"}, cgOpts{Semantics: true, Roots: true, NoRoots: collectorFns(lib), NoCollect: noCollect(lib)}, p, lib, lib.Decls)
		checkRoutines(c, "routines", p, lib)
		checkEntry(c, "program entry", p, lib, cs)
		checkExterns(c, p, lib, cs)
		ds, err := typeTable(p)
		if !c.Check(err == nil, "descriptors", "type table", "codegen.go genTypeInfoTable", "%v", err) {
			return
		}
		checkHeaders(c, "headers", p, lib, ds)
		checkShapes(c, "shapes", lib)
		checkDispatch(c, "dispatch", lib)
		dispatchResult(c, "dispatch", p)
		constructorsOf(c, "descriptors", "library", p, lib)
		libObjects(c, "library objects", lib, ds)
		collectorRules(c, loadLib(c))
	}
}
