package checks

import (
	"fmt"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// CFn is a function of the runtime's C part, in the compiler's intermediate representation.
type CFn struct {
	Name   string
	Ret    string
	Params []string
	Body   []string
	File   string
}

var defRe = regexp.MustCompile(`^define (?:[a-z_]+ )*?((?:i\d+|void|ptr|noundef|zeroext|signext| )+) ?@([A-Za-z0-9_.]+)\((.*)\) `)

// loadC reads the C part of the runtime as LLVM IR.
func loadC(c *Ctx) map[string]*CFn {
	fs, _ := filepath.Glob(filepath.Join(c.P.Dir, "install", "init", "*.c"))
	sort.Strings(fs)
	if len(fs) == 0 {
		panic(AnchorError{"install/init/*.c"})
	}
	r := map[string]*CFn{}
	for _, f := range fs {
		out, err := exec.Command("clang", "-O1", "-S", "-emit-llvm", "-w", "-o", "-", f).Output()
		if err != nil {
			panic(AnchorError{f + ": not compilable"})
		}
		var cur *CFn
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "define ") {
				m := defRe.FindStringSubmatch(l)
				if m == nil {
					panic(AnchorError{"C function: " + l})
				}
				cur = &CFn{Name: m[2], Ret: lastWord(m[1]), File: filepath.Base(f)}
				for _, p := range splitTopC(m[3]) {
					if p = strings.TrimSpace(p); p != "" {
						cur.Params = append(cur.Params, p)
					}
				}
				r[cur.Name] = cur
				continue
			}
			if l == "}" {
				cur = nil
			}
			if cur != nil {
				if t := strings.TrimSpace(l); t != "" {
					cur.Body = append(cur.Body, t)
				}
			}
		}
	}
	return r
}

func lastWord(s string) string {
	f := strings.Fields(s)
	if len(f) == 0 {
		return ""
	}
	return f[len(f)-1]
}

func splitTopC(s string) []string {
	var r []string
	d, at := 0, 0
	for i, ch := range s {
		switch ch {
		case '(', '[', '{', '<':
			d++
		case ')', ']', '}', '>':
			d--
		case ',':
			if d == 0 {
				r = append(r, s[at:i])
				at = i + 1
			}
		}
	}
	return append(r, s[at:])
}

// cEffect is a straight-line C function's effect: stores by global, and the result.
type cEffect struct {
	Stores map[string]string
	Ret    string
	Err    string
}

var (
	cLoad  = regexp.MustCompile(`^(%\w+) = load i64, ptr @(\w+)`)
	cStore = regexp.MustCompile(`^store i64 (%\w+), ptr @(\w+)`)
	cCmp   = regexp.MustCompile(`^(%\w+) = icmp eq i64 (%\w+), (%\w+)`)
	cZext  = regexp.MustCompile(`^(%\w+) = zext i1 (%\w+) to i\d+`)
	cRet   = regexp.MustCompile(`^ret (?:i\d+|ptr) (%\w+)`)
)

func (f *CFn) effect() (e cEffect) {
	e.Stores = map[string]string{}
	v := map[string]string{}
	for i, p := range f.Params {
		v[lastWord(p)] = fmt.Sprintf("arg%d", i)
	}
	val := func(s string) string {
		if x, ok := v[s]; ok {
			return x
		}
		return "?" + s
	}
	for _, l := range f.Body {
		switch {
		case cLoad.MatchString(l):
			m := cLoad.FindStringSubmatch(l)
			if x, ok := e.Stores[m[2]]; ok {
				v[m[1]] = x
			} else {
				v[m[1]] = "@" + m[2]
			}
		case cStore.MatchString(l):
			m := cStore.FindStringSubmatch(l)
			e.Stores[m[2]] = val(m[1])
		case cCmp.MatchString(l):
			m := cCmp.FindStringSubmatch(l)
			a, b := val(m[2]), val(m[3])
			if a > b {
				a, b = b, a
			}
			v[m[1]] = a + "==" + b
		case cZext.MatchString(l):
			m := cZext.FindStringSubmatch(l)
			v[m[1]] = val(m[2])
		case cRet.MatchString(l):
			e.Ret = val(cRet.FindStringSubmatch(l)[1])
		case strings.HasPrefix(l, "ret void"):
			e.Ret = "void"
		default:
			e.Err = l
		}
	}
	return
}

// cellPair checks that a C setter and reader share one variable no other function writes.
func cellPair(c *Ctx, cs map[string]*CFn, setter, reader, want string) {
	rule := "runtime state in C"
	s, r := cs[setter], cs[reader]
	if s == nil || r == nil {
		c.Fail(rule, setter+"/"+reader, "install/init", "not defined")
		return
	}
	se, re := s.effect(), r.effect()
	if se.Err != "" || re.Err != "" {
		c.Fail(rule, setter+"/"+reader, s.File, "undecided: %s%s", se.Err, re.Err)
		return
	}
	cell := ""
	for g, v := range se.Stores {
		if v == "arg0" {
			cell = g
		}
	}
	c.Check(len(se.Stores) == 1 && cell != "", rule, setter, s.File, "does not keep its argument: %v", se.Stores)
	c.Check(len(re.Stores) == 0 && re.Ret == strings.ReplaceAll(want, "CELL", "@"+cell), rule, reader, r.File, "gives %s, not %s of %s", re.Ret, want, cell)
	for n, f := range cs {
		if n == setter {
			continue
		}
		w := false
		for _, l := range f.Body {
			if strings.HasPrefix(l, "store") && strings.Contains(l, "@"+cell+",") {
				w = true
			}
		}
		c.Check(!w, rule, n+" on "+setter, f.File, "%s changes the variable of %s", n, setter)
	}
}
