SEEDS=[]
def s(id,prop,edits,needs,breaks,prog,mode='run',expect=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,prog=prog,mode=mode)
    if expect is not None: d['expect']=expect
    SEEDS.append(d)
cg='codegen.go'; tc='typecheck.go'; se='semantic.go'; st='symtab.go'; cl='closures.go'; wk='walk.go'; ast='ast.go'; ps='parse.go'; lx='lex/lex.go'; asm='asm.go'; gc='gc.go'; mn='main.go'; pp='peep.go'
L='install/lib/'
s('S10-double-not','C01',[(cg,'''		genExpr(asm, expr.left, false, fn)
		asm.ins(notq, rax)
		switch''','''		genExpr(asm, expr.left, false, fn)
		if expr.op == opNot && expr.left.op == opNot {
			return
		}
		asm.ins(notq, rax)
		switch''')],'a doubly negated condition','not not b is not b','''fn f(b: bool) int = not not b ? 1 : 2
fn main() { printf("%d %d\\n", f(true), f(false)) }
''',expect='1 2\nexit 0\n')
s('S13-raw-result','C02',[(cg,'if fn.Is(External) && fn.RawValues && fn.ret.Is(Integer) {','if fn.Is(External) && fn.RawValues && fn.ret.Is(Integer) && len(n.stmts) > 0 {')],
 'a raw C function without parameters returning an integer','its result is not tagged','''#[RawValues]
fn getpagesize() int
fn main() { printf("%d\\n", getpagesize()) }
''',expect='4096\nexit 0\n')
s('S14-empty-if','C03',[(cg,'''			genStmtList(asm, cur.stmts, fn)     // Generate if (true) stmt block
			asm.ins(jmp, labelOp(exit)) // Exit''','''			genStmtList(asm, cur.stmts, fn)     // Generate if (true) stmt block
			if len(cur.stmts) > 0 || cur.right == nil || cur.right.op != opElse {
				asm.ins(jmp, labelOp(exit))
			} // Exit''')],'an if with an empty body and an else','both branches are taken','''fn f(a: int) { if a > 0 { } else { printf("no\\n") } printf("end\\n") }
fn main() { f(1) f(0) }
''',expect='end\nno\nend\nexit 0\n')
s('S15-literal-local','C04',[(cg,'''	if n.op == opDas {
		fn.gcRoots.Add''','''	if n.op == opDas && !n.right.Is(opLit) {
		fn.gcRoots.Add''')],'a variable that starts as a literal and is assigned an allocated value, then a collection','the value is collected while the variable still refers to it','''fn main() {
 s := ""
 for i in 0 .. 3 { s = s.append("ab") }
 gc()
 x := "xxxxxx".append("")
 y := "yyyyyyy".append("zzz")
 z := "yyyy".append("zz")
 printf("%s\\n", s)
}
''',expect='ababab\nexit 0\n')
s('S17-index-zero','C06',[(cg,'asm.ins(jae, labelOp("ioob"))','if !expr.right.Is(opLit) || expr.right.sym.Name != "0" {\n\t\t\tasm.ins(jae, labelOp("ioob"))\n\t\t}')],
 'element 0 of an empty array','the access is not checked','''fn first(a: []int) int = a[0]
fn main() { a := intArray(0) printf("%d\\n", first(a)) }
''',expect="""
// -----------------------------------------------------------------------------
// Panic: index out of bounds! index = 0, array.length = 0
// -----------------------------------------------------------------------------

Backtrace:
TODO!

exit 1
""")
s('S18-bool-eq','C07',[(se,'	opEq:     {Integer},','	opEq:     {Integer, Boolean},')],'comparing two booleans','the compiler crashes without a diagnostic','''fn main() { a := true b := false if a == b { } }
''',mode='reject')
s('S19-neg-pointer','C07',[(tc,'if !left.typ.Is(Integer) {','if !left.typ.IsAny(Integer, Pointer) {')],'negating a pointer','the compiler crashes without a diagnostic','''fn f(p: pointer) { x := -p }
fn main() { }
''',mode='reject')
s('S20-nothing-return','C08',[(tc,'''			if expr.typ != nil && !fn.ret.Matches(expr.typ) {''','''			if expr.typ != nil && !fn.ret.Is(Nothing) && !fn.ret.Matches(expr.typ) {''')],'an expression function declared to return nothing with a value','a function without a result returns a value','''fn f(x: int) nothing = x + 1
fn main() { f(1) }
''',mode='reject')
s('S21-array-kind','C08',[(tc,'''		if !expr.typ.Matches(n.stmts[0].typ) {''','''		if expr.typ.Kind != n.stmts[0].typ.Kind {''')],'an array literal of arrays of different element types','elements of one array have different types','''fn main() { a := [[1, 2], ["x"]] }
''',mode='reject')
s('S22-str-length','C08',[(ast,'return (t.Is(Array) || t.Is(String)) && n.right.sym.Name == "length"','return t.Is(Array) && n.right.sym.Name == "length"')],'assigning the length of a string','the read only length can be assigned','''fn main() { s := "abc" s.length = 9 }
''',mode='reject')
s('S23-bare-return','C08',[(tc,'''		if !fn.ret.Matches(rType) {''','''		if left != nil && !fn.ret.Matches(rType) {''')],'return without a value in a function with a result','the function returns garbage','''fn f(a: int) string { if a > 1 { return } return "x" }
fn main() { f(1) }
''',mode='reject')
s('S24-generic-rebind','C09',[(st,'		return t.MatchesImpl(bind, false, bound)','		return t.Kind == bind.Kind && (t.IsAny(Struct, Enum) || t.MatchesImpl(bind, false, bound))')],'one type parameter bound to two structs','the call is accepted with unrelated types','''struct a { x: int }
struct b { s: string }
fn same«T»(x: T, y: T) T { return y }
fn main() { v := same(A(1), B("x")) }
''',mode='reject')
s('S25-fn-result','C09',[(st,'		return tf.ret.MatchesImpl(xf.ret, allowBinding, bound)','		return xf.ret.Is(Nothing) || tf.ret.MatchesImpl(xf.ret, allowBinding, bound)')],'a function without a result passed where one with a result is expected','the result of the call is garbage','''fn one(x: int) int { return x }
fn use(f: fn(int) nothing) { f(1) }
fn main() { use(one) }
''',mode='reject')
s('S26-errs-one','C10',[(mn,'''	WalkPostOrder(rootNode, lowerForStatement)
	if len(errs) > 0 {''','''	WalkPostOrder(rootNode, lowerForStatement)
	if len(errs) > 1 {''')],'exactly one error found after type checking','the program is compiled although it is wrong','''fn f(a: int, b: int) fn(int, int, int, int, int, int) int {
 return fn(c: int, d: int, e: int, g: int, h: int, i: int) int { return a + c + i }
}
fn main() { f(1, 2) }
''',mode='reject')
s('S27-eof','C10',[(ps,'''		p.syntaxError("<more input>")
		*errs = p.errs''','''		*errs = p.errs''')],'a file that ends in the middle of a declaration','the rest is silently ignored','''fn main() { printf("x\\n") }
fn f() { x := 1 +''',mode='reject')
s('S28-match-missing','C11',[(tc,'''		if len(n.stmts) != len(enum.Members) {''','''		if len(n.stmts) < len(enum.Members) - 1 {''')],'a match that leaves out one constructor','a match that is not exhaustive is accepted','''enum e { A() B() C() }
fn f(x: e) int { match x { case A(): return 1 case B(): return 2 } return 3 }
fn main() { f(A()) }
''',mode='reject')
s('S29-case-arg','C11',[(se,'''				field := enum.GetField(fmt.Sprintf("_%v", i))''','''				field := enum.GetField(fmt.Sprintf("_%v", i%4))''')],'a case with five variables','the fifth variable holds the first value','''enum e { A(a: int, b: int, c: int, d: int, f: int) B() }
fn f(x: e) int { match x { case A(a, b, c, d, g): return g * 100 + a case B(): return 0 } return 1 }
fn main() { printf("%d\\n", f(A(1, 2, 3, 4, 5))) }
''',expect='501\nexit 0\n')
s('S30-for-source','C12',[(se,'''			n.stmts = []*Node{das(array, arrayOrRange), das(val, intLit(0)), while}''','''			if arrayOrRange.Is(opIdentifier) {
				while.left.right = length(arrayOrRange)
			}
			n.stmts = []*Node{das(array, arrayOrRange), das(val, intLit(0)), while}''')],'the iterated variable is assigned inside the loop','the loop runs over the new array\'s length','''fn main() {
 a := [1, 2, 3]
 for x in a { printf("%d\\n", x) a = [9] }
}
''',expect='1\n2\n3\nexit 0\n')
s('S31-down-call','C12',[(se,'''			if arrayOrRange.right.Is(opLit) && arrayOrRange.right.token.Val == "0" {''','''			if arrayOrRange.right.Is(opLit) && arrayOrRange.right.token.Val == "0" && !arrayOrRange.left.Is(opFuncCall) {''')],'a descending range that starts at the result of a call','the loop never runs or never ends','''fn three() int = 3
fn main() { n := 0 for i in three() .. 0 { printf("%d\\n", i) n = n + 1 if n > 5 { return } } }
''',expect='2\n1\n0\nexit 0\n')
s('S33-capture-dot','C13',[(cl,'''	case n.Is(opDot):
		WalkPreOrder(n.left, fc.IdentityFreeVars)
		return false''','''	case n.Is(opDot):
		if !n.left.Is(opArray) {
			WalkPreOrder(n.left, fc.IdentityFreeVars)
		}
		return false''')],'a closure that reads a field of an element of a captured array','the array is not captured','''struct p { x: int }
fn f(a: []p) fn(int) int { return fn(i: int) int { return a[i].x } }
fn main() { printf("%d\\n", f([P(4), P(5)])(1)) }
''',expect='5\nexit 0\n')
s('S35-default-exit','C15',[(ast,'''		for _, n := range x {
			if len(n.stmts) == 0 {
				return false
			}
			if !''','''		for i, n := range x {
			if len(n.stmts) == 0 {
				return i > 1
			}
			if !''')],'a function whose final if has an empty third branch','control falls off the end of a function with a result','''fn f(a: int) int { if a == 1 { return 1 } elseif a == 2 { return 2 } elseif a == 3 { } else { return 4 } }
fn main() { f(3) }
''',mode='reject')
s('S36-block-comment','C16',[(lx,'''			case '>':
				l.next()
				l.emit(BRight)''','''			case '>':
				l.next()
				if l.peek() == '>' {
					l.next()
				}
				l.emit(BRight)''')],'three > characters','a character of the source is swallowed','''fn main() { x := 64 y := x >>> 2 }
''',mode='reject')
s('S37-astral','C16',[(lx,"	return r == '_' || unicode.IsLetter(r)","	return r == '_' || (r < 0x10000 && unicode.IsLetter(r))")],'an identifier with a letter outside the basic plane','the identifier is not recognised','''fn main() { 𝑥 := 4 printf("%d\\n", 𝑥) }
''',expect='4\nexit 0\n')
