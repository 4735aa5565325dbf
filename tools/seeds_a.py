SEEDS=[
dict(id='S01-shr-logical',prop='C01',edits=[
  ('asm.go','	shlq\n	sarq\n','	shlq\n	sarq\n	shrq\n'),
  ('asm.go','	sarq:   "sarq",\n','	sarq:   "sarq",\n	shrq:   "shrq",\n'),
  ('codegen.go','	ins[opBRight] = sarq','	ins[opBRight] = shrq')],
 needs='a right shift of a negative number',
 breaks='>> shifts in zero bits instead of copies of the sign',
 prog='''fn main() { x := -64 y := 2
 printf("%d %d\\n", x >> y, 64 >> y) }
''',expect='-16 16\nexit 0\n'),
dict(id='S02-div-shift',prop='C01',edits=[
  ('codegen.go','	case opAdd, opSub, opMul, opDiv, opBOr, opBAnd, opBXor:\n','''	case opAdd, opSub, opMul, opDiv, opBOr, opBAnd, opBXor:

		// Strength reduction: division by a literal power of 2
		if expr.op == opDiv && expr.right.op == opLit {
			if d, err := strconv.ParseInt(expr.right.sym.Name, 0, 64); err == nil && d > 1 && d&(d-1) == 0 {
				shift := 0
				for ; d > 1; d >>= 1 {
					shift++
				}
				genExpr(asm, expr.left, false, fn)
				untag(asm, expr.left, rax)
				asm.ins(sarq, intOp(shift), rax)
				tag(asm, expr, rax)
				return
			}
		}
''')],
 needs='division of a negative number by a literal power of two',
 breaks='division rounds towards negative infinity instead of truncating',
 prog='''fn half(x: int) int = x / 2
fn main() { printf("%d %d %d\\n", half(9), half(-9), -7 / 4) }
''',expect='4 -4 -1\nexit 0\n'),
dict(id='S03-no-spill-nullary',prop='C02',edits=[
  ('codegen.go','	f.SpillRegisters(asm)\n','''	// Nothing is loaded into argument registers for calls without arguments
	spill := len(n.stmts) > 0 || !fn.Is(External)
	if spill {
		f.SpillRegisters(asm)
	}
'''),
  ('codegen.go','	f.RestoreRegisters(asm)\n}','''	if spill {
		f.RestoreRegisters(asm)
	}
}''')],
 needs='a C function without parameters called inside a later argument of another call',
 breaks='earlier arguments are lost because C functions clobber argument registers',
 prog='''#[RawValues]
fn rand() int
fn show(a: int, b: int, c: int) { printf("%d %d %d\\n", a, b, c > 0 ? 1 : 0) }
fn main() { show(11, 22, rand() * 0 + 5) }
''',expect='11 22 1\nexit 0\n'),
dict(id='S04-if-fallthrough',prop='C03',edits=[
  ('codegen.go','			genStmtList(asm, cur.stmts, fn)     // Generate if (true) stmt block\n			asm.ins(jmp, labelOp(exit)) // Exit if/elseif/else block completely\n','''			genStmtList(asm, cur.stmts, fn)     // Generate if (true) stmt block
			if !leaves(cur.stmts) {
				asm.ins(jmp, labelOp(exit)) // Exit if/elseif/else block completely
			}
'''),
  ('codegen.go','func genReturnStmt(','''// leaves is true when a block ends by leaving the function
func leaves(stmts []*Node) bool {
	if len(stmts) == 0 {
		return false
	}
	last := stmts[len(stmts)-1]
	return last.op == opReturn || last.op == opIf && leaves(last.stmts)
}

func genReturnStmt(''')],
 needs='an if with else whose taken branch ends in a nested if that returns, when the nested condition is false',
 breaks='execution falls through into the else branch',
 prog='''fn f(a: int, b: int) {
 if a > 0 {
   printf("pos\\n")
   if b > 0 { return }
 } else {
   printf("neg\\n")
 }
 printf("end\\n")
}
fn main() { f(1, 1) f(1, 0) f(0, 0) }
''',expect='pos\npos\nend\nneg\nend\nexit 0\n'),
dict(id='S05-scope-roots',prop='C04',edits=[('codegen.go','		case opBlock:\n			genStmtList(asm, stmt.stmts, fn)','		case opBlock:\n			for _, s := range stmt.stmts {\n				genStmtList(asm, []*Node{s}, fn)\n			}')],
 needs='a for loop (lowered to a block) over an array held only by the loop',
 breaks='locals declared in a lowered block lose their collector root after their declaration',
 prog='''fn mk() []string { return ["aaaa".append("bbbb"), "cccc".append("dddd"), "eeee".append("ffff")] }
fn main() {
 for s in mk() {
   gc()
   x := "xxxx".append("yyyyyyyyyyyy")
   y := "zzzz".append("wwww")
   printf("%s\\n", s)
 }
}
''',expect='aaaabbbb\nccccdddd\neeeeffff\nexit 0\n'),
dict(id='S06-fn-roots',prop='C04',edits=[('gc.go','func (gs *GcState) Add(off int, t *Type) {\n	if t.IsPointer() {','func (gs *GcState) Add(off int, t *Type) {\n	// Functions are read only so never collected\n	if t.IsPointer() && !t.Is(Function) {'),
  ('gc.go','func (gs *GcState) Remove(off int, t *Type) {\n	if t.IsPointer() {','func (gs *GcState) Remove(off int, t *Type) {\n	if t.IsPointer() && !t.Is(Function) {')],
 needs='a closure held only by a local variable while something is allocated',
 breaks='closure objects are collected while still in use',
 prog='''fn adder(n: string) fn(int) int { return fn(x: int) int { return x + n.length } }
fn use(f: fn(int) int) {
   gc()
   x := "xxxx".append("yyyyyyyyyyyy")
   y := "zzzz".append("wwww")
   z := "zzzz".append("wwwwzzzzzzzzzzz")
   printf("%d\\n", f(1))
}
fn main() { use(adder("abcd")) }
''',expect='5\nexit 0\n'),
]
