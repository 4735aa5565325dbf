SEEDS=[]
def s(id,prop,edits,needs,breaks,prog=None,mode='run',expect=None,demo=None,files=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,mode=mode)
    if prog is not None: d['prog']=prog
    if expect is not None: d['expect']=expect
    if demo: d['demo']=demo
    if files: d['files']=files
    SEEDS.append(d)
lx,pa,se,tc,cg,gc,st,cl,wk,pe,asm,mn,ast='lex/lex.go','parse.go','semantic.go','typecheck.go','codegen.go','gc.go','symtab.go','closures.go','walk.go','peep.go','asm.go','main.go','ast.go'
L='install/lib/'
s('S40-bnot-prec','C17',[(pa,'''left: p.parseExpr(kind.Precedence())}''','''left: p.parseExpr(map[bool]int{true: lex.Kind(lex.Dot).Precedence(), false: kind.Precedence()}[token.Kind == lex.BNot])}''')],
 '~ applied to a field or element','~a[0] is read as (~a)[0]','''fn main() { a := [5, 6] printf("%d\\n", ~a[0]) }
''',expect='-6\nexit 0\n')
s('S41-anon-ternary','C17',[(pa,'''	case lex.As:
		p.next()
		n.op = opExprFnDcl
		n.stmts = []*Node{p.parseExpr(0)}''','''	case lex.As:
		p.next()
		n.op = opExprFnDcl
		prec := 0
		if isAnon {
			prec = lex.Kind(lex.Question).Precedence()
		}
		n.stmts = []*Node{p.parseExpr(prec)}''')],'an anonymous function whose expression is a conditional or an or','the expression ends too early','''fn main() { f := fn(x: int) bool = x > 3 or x < 0 if f(5) { printf("y\\n") } if f(1) { printf("n\\n") } if f(-1) { printf("y\\n") } }
''',expect='y\ny\nexit 0\n')
s('S42-else-scope','C18',[(tc,'''			errs = append(errs, typeCheck(right, symtab, fn, debug)...)
		}

		// Does not promote type...

	case opElse''','''			errs = append(errs, typeCheck(right, n.symtab, fn, debug)...)
		}

		// Does not promote type...

	case opElse''')],'a variable of one branch mentioned in the else branch','a variable is visible outside its block','''fn f(b: bool) { if b { x := 1 } else { y := x printf("%d\\n", y) } }
fn main() { f(false) }
''',mode='reject')
s('S43-literal-spaces','C19',[(asm,'''	if label, ok := gw.literals[s]; ok {''','''	if label, ok := gw.literals[strings.Replace(s, "  ", " ", -1)]; ok {''')],'two string literals that differ only in the number of spaces between words','the second literal has the text of the first','''fn main() { printf("%s|%s\\n", "a b", "a  b") }
''',expect='a b|a  b\nexit 0\n')
s('S45-terminator','C19',[(asm,'''		gw.write("   .ascii \\"%v\\\\0\\"\\n", s[1:len(s)-1])''','''		if len(raw)%32 == 0 && len(raw) > 0 {
			gw.write("   .ascii \\"%v\\"\\n", s[1:len(s)-1])
			continue
		}
		gw.write("   .ascii \\"%v\\\\0\\"\\n", s[1:len(s)-1])''')],'a literal whose length is a multiple of 32','the literal has no terminator','''fn main() { printf("%s|%s|\\n", "abcdefghabcdefghabcdefghabcdefgh", "12345678ABCDEFGH12345678ABCDEFGH") }
''',expect='abcdefghabcdefghabcdefghabcdefgh|12345678ABCDEFGH12345678ABCDEFGH|\nexit 0\n')
s('S46-range-end-walk','C20',[(wk,'''	case opFor:
		Walk(isPreOrder, n.right, f)''','''	case opFor:
		if n.right.op != opRange {
			Walk(isPreOrder, n.right, f)
		} else {
			Walk(isPreOrder, n.right.left, f)
		}''')],'an array literal or function literal in the end of a range','it is not lowered','''fn main() { for i in 0 .. [7, 8, 9].length { printf("%d\\n", i) } }
''',expect='0\n1\n2\nexit 0\n')
s('S48-mangle-enum','C21',[(st,'return fmt.Sprintf("%v$%v$", e.Name, strings.Join(tps, "."))','return e.Name')],'overloads over two instances of one generic enum','both get the same symbol','''fn f(a: option«int») int = 1
fn f(a: option«string») int = 2
fn main() { printf("%d %d\\n", f(Some(1)), f(Some("x"))) }
''',expect='1 2\nexit 0\n')
s('S49-disp','C22',[(asm,'	mo.disp = int16(m)','	mo.disp = int16(m % 512)')],'a frame of more than 512 bytes','the displacement wraps','''fn main() {
'''+' '.join('v%d := %d'%(i,i) for i in range(80))+'\n printf("%d %d %d\\n", v0, v15, v70) }\n',expect='0 15 70\nexit 0\n')
s('S53-self-field','C23',[(cg,'''				if f.Type.IsPointer() {
					off = append(off, f.Addr/ptrSize)''','''				if f.Type.IsPointer() && f.Type != t {
					off = append(off, f.Addr/ptrSize)''')],'a struct with a field of its own type that holds the only reference','the referenced object is collected','''struct node { next: []node self: node val: string }
fn none() node = unsafe(0, 0, type(node))
fn mk() node {
 a := Node([none()], none(), "first".append(""))
 return Node([none()], a, "second".append(""))
}
fn main() {
 n := mk()
 gc()
 x := "xxxxxxxxxx".append("") y := "yyyyyyyyyy".append("") z := "zzzzz".append("zzzzz")
 printf("%s\\n", n.self.val)
}
''',expect='first\nexit 0\n')
s('S54-fifth-arg','C23',[(cg,'''				if tp.IsPointer() {
					off = append(off, i + 1) // Skip tag!''','''				if tp.IsPointer() && i < 4 {
					off = append(off, i + 1) // Skip tag!''')],'the fifth value of an enum constructor holds the only reference','the object is collected','''enum e { A(a: int, b: int, c: int, d: int, f: string) B() }
fn mk() e { return A(1, 2, 3, 4, "aaaa".append("bbbbbb")) }
fn main() {
 b := mk()
 gc()
 x := "xxxxxxxxxx".append("") y := "yyyyyyyyyy".append("") z := "zzzzz".append("zzzzz")
 match b { case A(p, q, r, t, s): printf("%s\\n", s) case B(): printf("none\\n") }
}
''',expect='aaaabbbbbb\nexit 0\n')
GOTEST='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TMPDIR="$t"
cp "$here/demo_test.go.txt" "$t/zz_demo_test.go"
printf '{"Replace": {"%s/zz_demo_test.go": "%s/zz_demo_test.go"}}' "$PWD" "$t" > "$t/overlay.json"
timeout 200 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestDemo$' . > "$t/log" 2>&1 || { head -30 "$t/log"; exit 1; }
exit 0
'''
TWICE='''package main

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

func demoCompile(t *testing.T, dir, name, src string) string {
	p := filepath.Join(dir, name+".clara")
	if err := ioutil.WriteFile(p, []byte(src), 0644); err != nil {
		t.Fatal(err)
	}
	lib, _ := filepath.Glob("install/lib/*.clara")
	c, _ := filepath.Glob("install/init/*.c")
	exe, errs := Compile(options{}, lib, p, c, dir, &bytes.Buffer{})
	if len(errs) > 0 {
		t.Fatalf("%s: %v", name, errs)
	}
	out, err := exec.Command(exe).CombinedOutput()
	if err != nil {
		t.Fatalf("%s: %v %s", name, err, out)
	}
	return string(out)
}

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for i, src := range []string{%s} {
		if out := demoCompile(t, dir, string(rune('a'+i)), src); out != "ok\\n" {
			t.Fatalf("program %%d printed %%q", i, out)
		}
	}
}
'''
s('S55-token-cache','C25',[(mn,'''	var tokens []*lex.Token
	lexer := lex.Lex(code, path)
''','''	// Files need only be read once
	tokens, cached := tokenCache[path]
	if cached {
		return NewParser().Parse(tokens, root)
	}
	lexer := lex.Lex(code, path)
'''),(mn,'''	// Parse
	return NewParser()''','''	// Parse
	tokenCache[path] = tokens
	return NewParser()'''),(mn,'func lexAndParse(','var tokenCache = make(map[string][]*lex.Token)\n\nfunc lexAndParse(')],'two compilations of one path in one process, the file having changed in between','the second compilation yields the first program','',demo=GOTEST,files={'demo_test.go.txt':TWICE.replace('{%s}','{@@}').replace('%%','%').replace("string(rune('a'+i))",'"same"').replace('out != "ok\\n"','out != string(rune(65+i))').replace('@@','''"fn main() { printf(\\"A\\") }", "fn main() { printf(\\"B\\") }"''')})
s('S56-case-limit','C24',[(se,'				if len(consType.Params) > maxCaseArgCount {','				if len(consType.Params) > maxCaseArgCount+1 {')],'an enum constructor with six values','the compiler crashes or accepts it','''enum e { A(a: int, b: int, c: int, d: int, f: int, g: int) B() }
fn main() { x := A(1, 2, 3, 4, 5, 6) match x { case A(a, b, c, d, f, g): printf("%d\\n", g) case B(): printf("b\\n") } }
''',mode='reject')
s('S57-type-id-mask','C05',[(L+'gc.clara','fn typeId(b: block) int = (b.header & 0xFFFF << 47) >> 47','fn typeId(b: block) int = (b.header & 0xFF << 47) >> 47')],'a program with more than 256 types','objects are traced with the descriptor of another type','''fn main() {
 k := mk()
 gc()
 x := "xxxxxxxxxx".append("") y := "yyyyyyyyyy".append("") z := "zzzzz".append("zzzzz")
 printf("%s\\n", k.v)
}
struct keep { v: string }
fn mk() keep = Keep("aaaa".append("bbbbbb"))
'''.replace('struct keep','\n'.join('struct t%d { v: int }'%i for i in range(300))+'\nstruct keep'),expect='aaaabbbbbb\nexit 0\n')
s('S58-stale-labels','C21',[(cl,'		id := len(rootNode.stmts) // Always','		id := len(rootNode.stmts) & 0x3FF // Always')],'more than a thousand top level declarations with function literals','two function literals get the same symbol','''fn main() { f := fn(x: int) int = x + 1 g := fn(x: int) int = x + 2 printf("%d %d\\n", f(1), g(1)) }
'''+'\n'.join('fn h%d(y: int) fn(int) int { return fn(x: int) int = x + y + %d }'%(i,i) for i in range(1100))+'\n',expect='2 3\nexit 0\n')
s('S59-descending-minus','C12',[(se,'arrayOrRange.right.token.Val == "0" {','(arrayOrRange.right.token.Val == "0" || arrayOrRange.right.token.Val == "-1") {')],'a range that ends at the literal -1','the range counts down','''fn main() { for i in -4 .. -1 { printf("%d\\n", i) } printf("end\\n") }
''',expect='-4\n-3\n-2\nend\nexit 0\n')
