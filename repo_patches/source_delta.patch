From 9a8370bd83481e04c99b83b962428d2159d1a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:57 +0000
Subject: [PATCH 01/43] fix: preserve argument registers clobbered by division
 and shifts

---
 codegen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 330f8d8..113ccd0 100644
--- a/codegen.go
+++ b/codegen.go
@@ -703,9 +703,13 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
 		if expr.op == opDiv {
-			asm.ins(cqo) // Sign-extend rax into rdx
+			asm.ins(movq, rdx, r10) // Preserve rdx, it may hold an argument of an enclosing call
+			asm.ins(cqo)            // Sign-extend rax into rdx
 		}
 		asm.ins(ins[expr.op], rbx, rax)
+		if expr.op == opDiv {
+			asm.ins(movq, r10, rdx)
+		}
 		tag(asm, expr, rax)
 
 		// NOTES:
@@ -750,9 +754,11 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		save(asm, fn, rax)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
+		asm.ins(movq, rcx, r10) // Preserve rcx, it may hold an argument of an enclosing call
 		asm.ins(movq, rax, rcx)
 		restore(asm, fn, rax)
 		asm.ins(ins[expr.op], cl, rax)
+		asm.ins(movq, r10, rcx)
 		tag(asm, expr, rax)
 
 	case opIdentifier:
-- 
2.43.0


From 3c26a84a00fb8dfb7049cf34537141ea2a1c3998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:02 +0000
Subject: [PATCH 02/43] fix: convert raw arguments only after every argument
 was evaluated

---
 codegen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 113ccd0..ec6a82f 100644
--- a/codegen.go
+++ b/codegen.go
@@ -593,9 +593,12 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		genExpr(asm, arg, false, f)
 		asm.ins(movq, rax, regs[i])
 		f.RegisterInUse(arg.typ)
+	}
 
-		// Create "raw" values for any external functions which require them
-		if fn.Is(External) && fn.RawValues {
+	// Create "raw" values for any external functions which require them. NOTE: Must happen after all arguments
+	// are evaluated as registers may be spilled & used as GC roots until then
+	if fn.Is(External) && fn.RawValues {
+		for i, arg := range n.stmts {
 			switch arg.typ.Kind {
 			case String, Array, Bytes:
 				// Modify pointer to point past length
-- 
2.43.0


From 55ff81735f146b911578c7056d00978123c6bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:07 +0000
Subject: [PATCH 03/43] fix: leave the GC scope being closed

---
 gc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gc.go b/gc.go
index ce9b9e7..5e1fe7d 100644
--- a/gc.go
+++ b/gc.go
@@ -48,6 +48,7 @@ func (gs *GcState) OpenScope() {
 
 func (gs *GcState) CloseScope() {
 	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
+	gs.scopes = gs.scopes[:len(gs.scopes)-1]
 }
 
 func (gs *GcState) Add(off int, t *Type) {
-- 
2.43.0


From 5a60c46ec8853677099cdcbbbf38451d1afaf93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:20 +0000
Subject: [PATCH 04/43] fix: keep pointers held on the stack during assignment
 and indexing visible to the GC

---
 codegen.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index ec6a82f..11935b0 100644
--- a/codegen.go
+++ b/codegen.go
@@ -513,14 +513,14 @@ func genAssignStmt(asm asmWriter, n *Node, fn *function) {
 
 	// Evaluate expression & push result to stack
 	genExpr(asm, n.right, false, fn)
-	save(asm, fn, rax)
+	saveRoot(asm, fn, rax, n.right.typ)
 
 	// Evaluate mem location to store
 	slot := n.left
 	genExpr(asm, slot, true, fn)
 
 	// Pop result
-	restore(asm, fn, rbx)
+	restoreRoot(asm, fn, rbx, n.right.typ)
 	src := rbx
 
 	// Write slot
@@ -829,7 +829,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		// Calculate array address
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		saveRoot(asm, fn, rax, expr.left.typ)
 
 		// Calculate index
 		genExpr(asm, expr.right, false, fn)
@@ -846,7 +846,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(cmpq, rax, rbx) // index - array.length
 
 		// Restore array address before jump!
-		restore(asm, fn, rax)
+		restoreRoot(asm, fn, rax, expr.left.typ)
 		asm.ins(jae, labelOp("ioob"))
 
 		// Displace + ptrSize to skip over length
@@ -909,6 +909,17 @@ func restore(asm asmWriter, fn *function, r reg) {
 	fn.decSp(1)
 }
 
+// Save a value which must be visible to the GC until it is restored
+func saveRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	save(asm, fn, r)
+	fn.gcRoots.Add(fn.sp * ptrSize, t)
+}
+
+func restoreRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	fn.gcRoots.Remove(fn.sp * ptrSize, t)
+	restore(asm, fn, r)
+}
+
 var ins = make(map[int]inst)
 func init() {
 	ins[opAdd] = addq
-- 
2.43.0


From 3c1de14bc6244cb86c1eaa49137007a386e41fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:48 +0000
Subject: [PATCH 05/43] fix: evaluate iterated array once and track loop
 variable as GC root

---
 semantic.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/semantic.go b/semantic.go
index 455c491..b1585f6 100644
--- a/semantic.go
+++ b/semantic.go
@@ -473,20 +473,15 @@ func lowerForStatement(n *Node) {
 
 		// 2 cases - arrayOrRange or range expression
 		if arrayOrRange.typ.Is(Array) {
-			var stmts []*Node
-
-			// Array literals need assigned to a slot first
-			if arrayOrRange.Is(opArrayLit) {
-				arrayLitSlot := newVar("$arrayLit$", intArrayType)
-				stmts = append(stmts, das(arrayLitSlot, arrayOrRange.left))
-				arrayOrRange = arrayLitSlot
-			}
+			// Assign array to a slot first so it is only evaluated once. Loop variable is
+			// declared (not just assigned) so that it is tracked by the GC
+			array := newVar("$array$", arrayOrRange.typ)
 			val := newVar("$idx$", intType)
-			while := while(lt(val.copy(), length(arrayOrRange)))
-			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
+			while := while(lt(val.copy(), length(array.copy())))
+			while.stmts = append(while.stmts, das(n.left, access(array.copy(), val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
-			n.stmts = append(stmts, das(val, intLit(0)), while)
+			n.stmts = []*Node{das(array, arrayOrRange), das(val, intLit(0)), while}
 		} else {
 			val = n.left
 			initVal := arrayOrRange.left
-- 
2.43.0


From 3950f5047a4be0c468cc77bd5fe2f315e7cf7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:20 +0000
Subject: [PATCH 06/43] fix: capture variables in array indexes and not fields
 of nested selections

---
 closures.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/closures.go b/closures.go
index e902bcb..839e6ab 100644
--- a/closures.go
+++ b/closures.go
@@ -161,11 +161,9 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case n.Is(opIdentifier) && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot, opArray) && n.left.Is(opIdentifier):
-		if fc.isFree(n.left) {
-			fc.free[n.left.sym] = true
-		}
-		return false // No need to walk right!
+	case n.Is(opDot):
+		WalkPreOrder(n.left, fc.IdentityFreeVars)
+		return false // No need to walk right, it is only ever a field!
 
 	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
 		return false // Don't walk into other closures!
-- 
2.43.0


From 98cdc52604718d7f54630045f017d0a46439401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:26 +0000
Subject: [PATCH 07/43] fix: reject comparison of types which cannot be
 compared

---
 semantic.go  | 5 +++++
 typecheck.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/semantic.go b/semantic.go
index b1585f6..caf4bcb 100644
--- a/semantic.go
+++ b/semantic.go
@@ -65,6 +65,11 @@ var operatorTypes = OperatorTypes{
 	opBXor:   {Integer},
 	opBLeft:  {Integer},
 	opBRight: {Integer},
+	opGt:     {Integer},
+	opGte:    {Integer},
+	opLt:     {Integer},
+	opLte:    {Integer},
+	opEq:     {Integer},
 	// TODO: What about unary operators? Operators which return a different type?
 }
 
diff --git a/typecheck.go b/typecheck.go
index 3bb470d..57db80d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -192,6 +192,11 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, right.typ))
 			goto end
 		}
+		if !operatorTypes.isValid(n.op, left.typ.Kind) {
+			// Not valid for op
+			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
+			goto end
+		}
 		n.typ = boolType
 
 	case opStructDcl, opEnumDcl:
-- 
2.43.0


From 11285c3190692998a5eadcff13e1500953b99701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:45 +0000
Subject: [PATCH 08/43] fix: report errors found inside conditional expressions
 and array literals

---
 typecheck.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 57db80d..2f9bb00 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -519,44 +519,44 @@ func typeCheckCase(n *Node, bound map[*Type]*Type, symtab *SymTab, fn *FunctionT
 	return errs
 }
 
-func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
+func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
 	cond := n.left
-	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() {
+	if errs = append(errs, typeCheck(cond, symtab, fn, debug)...); !cond.hasType() {
 		return errs
 	}
 	if !cond.typ.Is(Boolean) {
-		return []error{ semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType))
 	}
 	ifExpr := n.stmts[0]
-	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() {
+	if errs = append(errs, typeCheck(ifExpr, symtab, fn, debug)...); !ifExpr.hasType() {
 		return errs
 	}
 	elseExpr := n.stmts[1]
-	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() {
+	if errs = append(errs, typeCheck(elseExpr, symtab, fn, debug)...); !elseExpr.hasType() {
 		return errs
 	}
 	if !ifExpr.typ.Matches(elseExpr.typ) {
-		return []error{ semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ))
 	}
 	n.typ = ifExpr.typ
-	return nil
+	return errs
 }
 
-func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
+func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
 	if len(n.stmts) == 0 {
 		return []error{ semanticError(errEmptyArrayLiteralMsg, n.token) }
 	}
 	for _, expr := range n.stmts {
-		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() {
+		if errs = append(errs, typeCheck(expr, symtab, fn, debug)...); !expr.hasType() {
 			return errs
 		}
 		// Type of first element defines type for rest of elements
 		if !expr.typ.Matches(n.stmts[0].typ) {
-			return []error{ semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, intType) }
+			return append(errs, semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, n.stmts[0].typ))
 		}
 	}
 	n.typ = &Type{Kind: Array, Data: &ArrayType{Elem: n.stmts[0].typ}}
-	return nil
+	return errs
 }
 
 func typeCheckFor(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
-- 
2.43.0


From 6afa71424b95dc2f69d64cebfd88e11bac6ab527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:51 +0000
Subject: [PATCH 09/43] fix: reject assignment to call results, functions and
 types

---
 ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ee8b38c..1e7b8fb 100644
--- a/ast.go
+++ b/ast.go
@@ -37,8 +37,7 @@ func (n *Node) hasType() bool {
 func (n *Node) isAddressable() bool {
 	switch n.op {
 	case opArray: return true
-	case opFuncCall: return n.typ.Is(Struct) || n.typ.Is(Array)
-	case opIdentifier: return true
+	case opIdentifier: return !n.sym.IsGlobal && !n.sym.IsType // Functions & types are not storage
 	case opDot: return true
 	default:
 		return false
-- 
2.43.0


From 7ede49a298f779462d2b89db02c5ec5d4671e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:18 +0000
Subject: [PATCH 10/43] fix: reject input which ends in the middle of a
 construct

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index d313a33..8ec2d00 100644
--- a/parse.go
+++ b/parse.go
@@ -77,7 +77,6 @@ func (p *Parser) Parse(tokens []*lex.Token, root *Node) (errs []error) {
 			// TODO: p.sync(lex.Fn, lex.Struct, lex.Enum)
 		}
 	}
-	p.need(lex.EOF)
 	return p.errs
 }
 
@@ -599,9 +598,10 @@ func (p *Parser) syntaxError(expected string) {
 
 func (p *Parser) onUnexpectedEof(errs *[]error) {
 	if r := recover(); r != nil {
-		*errs = p.errs
 		if r != errUnexpectedEof {
 			panic(r)
 		}
+		p.syntaxError("<more input>")
+		*errs = p.errs
 	}
 }
\ No newline at end of file
-- 
2.43.0


From e2a223993a9c8d7415c1b00370330a8d18216f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:02 +0000
Subject: [PATCH 11/43] fix: report too many parameters, fields, captures and
 arguments instead of crashing

---
 closures.go | 16 +++++++++++++++-
 main.go     |  2 +-
 semantic.go | 10 ++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index 839e6ab..1ef9cf0 100644
--- a/closures.go
+++ b/closures.go
@@ -7,7 +7,7 @@ import (
 
 var id = uint(0) // TODO: Find a better solution to this...
 
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
+func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
@@ -16,6 +16,15 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 		freeVars := clIdentifyFreeVars(n)
 		if len(freeVars) > 0 {
 
+			// Captured variables are arguments to environment constructor & environment is an argument to function
+			if len(freeVars) > maxFnArgCount {
+				*errs = append(*errs, semanticError2(errTooManyCapturesMsg, n.token, len(freeVars), maxFnArgCount))
+				return
+			}
+			if len(n.params) >= maxFnArgCount {
+				*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount-1))
+				return
+			}
 			// ----------------------------------------------------------
 			// Closure
 			// ----------------------------------------------------------
@@ -89,6 +98,11 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 
 		s := rootNode.symtab.MustResolve("invokeDynamic")
 
+		// Function value is an argument too
+		if len(n.stmts) >= maxFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount-1))
+			return
+		}
 		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
 		n.stmts = append([]*Node{n.left}, n.stmts...)
 		n.left = ident(lex.WithVal(n.token, s.Name), s)
diff --git a/main.go b/main.go
index a853ea5..ba2e466 100644
--- a/main.go
+++ b/main.go
@@ -119,7 +119,7 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
 	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
diff --git a/semantic.go b/semantic.go
index caf4bcb..37608d5 100644
--- a/semantic.go
+++ b/semantic.go
@@ -41,6 +41,7 @@ const (
 	errTypeParameterNotKnownMsg = "%v:%d:%d: error, type parameter(s) '%v' of return type '%v' not known, explicit function call type parameters required"
 	errEmptyArrayLiteralMsg     = "%v:%d:%d: error, empty array literal not allowed ... yet!"
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
+	errTooManyCapturesMsg       = "%v:%d:%d: error, function captures '%v' variables which exceeds maximum of '%v'"
 	maxCaseArgCount             = 5
 	maxFnArgCount               = 6
 
@@ -178,6 +179,12 @@ loop:
 
 			strt := n.sym.Type.AsStruct()
 
+			// Fields are arguments to constructor
+			if len(n.stmts) > maxFnArgCount {
+				errs = append(errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount))
+				continue loop
+			}
+
 		fields:
 			for x, stmt := range n.stmts {
 
@@ -358,6 +365,9 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 	n.sym = sym
 
 	// Process parameters
+	if len(n.params) > maxFnArgCount {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount)
+	}
 	n.symtab = child
 	if n.right != nil {
 		for _, typeParameter := range n.right.params {
-- 
2.43.0


From 8494edc5e3ee371e2253ff2556ec75e946f2fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 12/43] fix: unary minus binds tighter than multiplication and
 division

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 8ec2d00..8bc7ac3 100644
--- a/parse.go
+++ b/parse.go
@@ -340,7 +340,11 @@ func parseGroup(p *Parser, _ *lex.Token) *Node {
 }
 
 func parsePrefixOperator(p *Parser, token *lex.Token) *Node {
-	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(token.Kind.Precedence())}
+	kind := token.Kind
+	if kind == lex.Min {
+		kind = lex.Neg // Lexer does not distinguish between unary & binary minus
+	}
+	return &Node{op: prefixKindToOp[token.Kind], token: token, left: p.parseExpr(kind.Precedence())}
 }
 
 func parseType(p *Parser, _ *lex.Token) *Node {
-- 
2.43.0


From 60e09a5412e81672ed8680170b1b6e646387d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 13/43] fix: allow bitwise not to start a returned expression

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 3e9f031..6ee7fc0 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -99,7 +99,7 @@ const (
 
 func (k Kind) IsExprStart() bool {
 	switch k {
-	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, LBrack:
+	case Integer, String, Identifier, True, False, Not, BNot, LParen, Fn, Min, LBrack:
 		return true
 	default:
 		return false
-- 
2.43.0


From 3811ff2ad683e05ebd99776b214c91629cb164b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:41 +0000
Subject: [PATCH 14/43] fix: report integer constants which do not fit in 63
 bits

---
 semantic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index 37608d5..4bd1c7b 100644
--- a/semantic.go
+++ b/semantic.go
@@ -471,9 +471,9 @@ func foldConstants(errs *[]error, n *Node) {
 		n.left = nil
 	}
 
-	// Check for overflow
+	// Check for overflow. NOTE: Integers are 63-bit as one bit is required for the tag
 	if n.op == opLit && n.token.Kind == lex.Integer {
-		_, err := strconv.ParseInt(n.token.Val, 0, 64)
+		_, err := strconv.ParseInt(n.token.Val, 0, 63)
 		if err != nil {
 			*errs = append(*errs, semanticError(errIntegerOverflowMsg, n.token))
 		}
-- 
2.43.0


From 9756e96ad080a05ab5b45d8653b4dfd0ceb9ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:06 +0000
Subject: [PATCH 15/43] fix: reject string literals which span lines

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 6ee7fc0..89b5419 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -432,7 +432,7 @@ func lexComment(l *Lexer) stateFn {
 func lexString(l *Lexer) stateFn {
 	loop: for {
 		switch l.peek() {
-		case eof, '"':
+		case eof, '"', '\r', '\n':
 			break loop;
 		case '\\':
 			l.next()
-- 
2.43.0


From a723462f9502886afa651066ca53a68bd818721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:06 +0000
Subject: [PATCH 16/43] fix: reject decimal literals with leading zeros, they
 were read as octal

---
 lex/lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex/lex.go b/lex/lex.go
index 89b5419..0608f0f 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -470,6 +470,8 @@ func lexHexOrDecInteger(l *Lexer) stateFn {
 			return l.errorf("Hexadecimal literal has no digits")
 		}
 		return lexInteger(isHexadecimal, l)
+	case isNumeric(r):
+		return l.errorf("Decimal literal has leading zero")
 	default:
 		return lexInteger(isNumeric, l)
 	}
-- 
2.43.0


From 0f052be5ff22895e00e658e2327c0db6c15285cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:12 +0000
Subject: [PATCH 17/43] fix: reject string literals which are not valid UTF-8,
 their length was wrong

---
 lex/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 0608f0f..39067c5 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -441,7 +441,9 @@ func lexString(l *Lexer) stateFn {
 			}
 			l.next()
 		default:
-			l.next()
+			if r := l.next(); r == utf8.RuneError && l.width == 1 {
+				return l.errorf("Invalid UTF-8 encoding in string literal")
+			}
 		}
 	}
 
-- 
2.43.0


From 11bb357840df82ddc3c55a7c7d9006ef87c99456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:32 +0000
Subject: [PATCH 18/43] fix: check for negative indexes of bytes and strings

---
 install/lib/bytes.clara   | 4 ++--
 install/lib/strings.clara | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 58bd149..8be3557 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -7,12 +7,12 @@ fn Bytes(length: int) bytes {
 fn length(b: bytes) int = b.toBytesHeader().length
 
 fn get(b: bytes, idx: int) int {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     return b.toPointer(8).readByte(idx).tag() // Tag after read
 }
 
 fn set(b: bytes, idx: int, val: int) {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     b.toPointer(8).writeByte(idx, val.untag()) // Untag before write
 }
 
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 929edf9..dee5118 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -1,6 +1,6 @@
 // ---------------------------------------------------------------------------------------------------------------------
 fn byte(s: string, idx: int) int {
-    assert(idx < s.length, "idx is out of range")
+    assert(idx >= 0 and idx < s.length, "idx is out of range")
     return s.toPointer(8).readByte(idx).tag()
 }
 
-- 
2.43.0


From 0e66964914562ed144c5a3eb7604d81856a919e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:38 +0000
Subject: [PATCH 19/43] fix: refuse array and bytes lengths for which the
 bounds check is meaningless

---
 install/lib/arrays.clara | 1 +
 install/lib/bytes.clara  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 27a9f48..6affe66 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -27,6 +27,7 @@ fn arrayNoInit«T»(length: int) []T = array(length, noInit«T»(), "[]T", 7)
 
 // TODO: Should be private
 fn array«T»(length: int, init: fn([]T), description: string, tag: int) []T {
+    assert(length >= 0 and length < (1 << 48), "length is out of range") // Ensure size does not overflow
     // TODO: Would be nice to lookup type ID for default & configure array type ID appropriately
     h := claralloc((length * 8) + 8, description, tag).toHeader() // pointer == 8 bytes, + 8 for length
     h.length = length
diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 8be3557..05ef8c3 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -1,4 +1,5 @@
 fn Bytes(length: int) bytes {
+    assert(length >= 0, "length is out of range")
     header := claralloc(length + 8, "bytes", 1).toBytesHeader()
     header.length = length
     return header.toBytes()
-- 
2.43.0


From d358ebb4b7d1ea6d8734c194839f6e1243911c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:42 +0000
Subject: [PATCH 20/43] fix: use the path of the file in read errors

---
 install/lib/io.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index fb268df..70746e5 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -12,7 +12,7 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(file.path), errnum())) : None«error»()
+    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
-- 
2.43.0


From 8f948a83c801d5fdf7f39cc630c56c7ade2aadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:54 +0000
Subject: [PATCH 21/43] fix: refuse negative read sizes

---
 install/lib/io.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index 70746e5..e1ff0b7 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -9,7 +9,7 @@ fn seek(f: file, off: int, mode: int) result«int, error» {
 }
 
 fn read(f: file, buf: bytes, size: int) option«error» {
-    if size > buf.length() {
+    if size < 0 or size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
     return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
-- 
2.43.0


From 85a41affb1f41a37e9dc37afca4676356b3e028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:17 +0000
Subject: [PATCH 22/43] fix: reject types used as values

---
 typecheck.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 2f9bb00..16a109f 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -903,7 +903,11 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 	// If no symbol - try to find identifier declaration
 	if n.sym == nil {
 		sym, found := symtab.Resolve(n.token.Val)
-		if !found {
+		if found && sym.IsType {
+			// Types are not values but functions may share their name
+			sym = sym.Next
+		}
+		if sym == nil {
 			return semanticError(errUnknownVarMsg, n.token)
 		}
 		if sym.Next != nil && !allowAmbiguous {
-- 
2.43.0


From fef04028c8210bbb279b87cb19745bb8d5ec8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:36 +0000
Subject: [PATCH 23/43] fix: reject external functions used as values

---
 semantic.go  |  1 +
 typecheck.go | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index 4bd1c7b..b8158ab 100644
--- a/semantic.go
+++ b/semantic.go
@@ -41,6 +41,7 @@ const (
 	errTypeParameterNotKnownMsg = "%v:%d:%d: error, type parameter(s) '%v' of return type '%v' not known, explicit function call type parameters required"
 	errEmptyArrayLiteralMsg     = "%v:%d:%d: error, empty array literal not allowed ... yet!"
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
+	errExternalFnValueMsg       = "%v:%d:%d: error, external function '%v' cannot be used as a value"
 	errTooManyCapturesMsg       = "%v:%d:%d: error, function captures '%v' variables which exceeds maximum of '%v'"
 	maxCaseArgCount             = 5
 	maxFnArgCount               = 6
diff --git a/typecheck.go b/typecheck.go
index 16a109f..8c93bad 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -174,6 +174,9 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 
 	case opIdentifier:
 		err := typeCheckIdentifier(n, symtab, false)
+		if err == nil {
+			err = checkFnValue(n)
+		}
 		if err != nil {
 			errs = append(errs, err)
 		}
@@ -649,7 +652,7 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 		s, _ := fnSymtab.Resolve(n.left.token.Val)
 		n.left.sym = s
 		n.typ = nothingType
-		return errs
+		return append(errs, checkFnValues(n.stmts)...)
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
@@ -661,7 +664,7 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 		}
 		n.left.sym = s
 		n.typ = n.stmts[len(n.stmts)-1].typ
-		return errs
+		return append(errs, checkFnValues(n.stmts)...)
 	}
 
 	// 2 cases, either the function call is a named call (global, parameter, etc) or is
@@ -693,6 +696,23 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 		n.left.sym = match
 		n.typ = retType
 	}
+	return append(errs, checkFnValues(n.stmts)...)
+}
+
+// External functions do not have an address which can be invoked as a function value
+func checkFnValue(n *Node) error {
+	if n.Is(opIdentifier) && n.sym.IsGlobal && n.sym.Type.Is(Function) && n.sym.Type.AsFunction().Is(External) {
+		return semanticError(errExternalFnValueMsg, n.token)
+	}
+	return nil
+}
+
+func checkFnValues(args []*Node) (errs []error) {
+	for _, arg := range args {
+		if err := checkFnValue(arg); err != nil {
+			errs = append(errs, err)
+		}
+	}
 	return errs
 }
 
-- 
2.43.0


From 5cd8b62b4e35ed877c1460fba948ed0329b08e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:11 +0000
Subject: [PATCH 24/43] fix: require all type parameters of a returned function
 type to be known

---
 typecheck.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 8c93bad..3f0d31a 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -883,10 +883,10 @@ func findUnboundTypeParameters(t *Type, bound map[*Type]*Type) []*Type {
 	case t.Is(Function):
 		f := t.AsFunction()
 		var unmatched []*Type
-		for _, f := range f.Types {
-			unmatched = append(unmatched, findUnboundTypeParameters(f, bound)...)
+		for _, p := range f.Params {
+			unmatched = append(unmatched, findUnboundTypeParameters(p, bound)...)
 		}
-		return unmatched
+		return append(unmatched, findUnboundTypeParameters(f.ret, bound)...)
 
 	case t.Is(Struct):
 		s := t.AsStruct()
-- 
2.43.0


From 5e994d42cfe7fdcd4303084f4f85c256d943e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:54 +0000
Subject: [PATCH 25/43] fix: instantiate recursive structs without overflowing
 the stack

---
 typecheck.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 3f0d31a..b361fff 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -830,38 +830,49 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
 	}
+	return substituteTypeImpl(t, bound, make(map[*Type]*Type))
+}
+
+// NOTE: Structs may be recursive so those already seen are not substituted again
+func substituteTypeImpl(t *Type, bound map[*Type]*Type, seen map[*Type]*Type) *Type {
 	switch {
 	case t.Is(Array):
-		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteType(t.AsArray().Elem, bound)}}
+		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteTypeImpl(t.AsArray().Elem, bound, seen)}}
 
 	case t.Is(Function):
 		f := t.AsFunction()
 		var params []*Type
 		for _, p := range f.Params {
-			params = append(params, substituteType(p, bound))
+			params = append(params, substituteTypeImpl(p, bound, seen))
 		}
-		returnType := substituteType(f.ret, bound)
+		returnType := substituteTypeImpl(f.ret, bound, seen)
 		// TODO: Should Data be copied too?
 		return &Type{Kind: Function, Data:
 			&FunctionType{Kind: f.Kind, isVariadic: f.isVariadic, ret: returnType, Params: params, Data: f.Data, RawValues: f.RawValues}}
 
 	case t.Is(Struct):
+		if x, ok := seen[t]; ok {
+			return x
+		}
+		x := &Type{Kind: Struct}
+		seen[t] = x
 		s := t.AsStruct()
 		var types []*Type
 		for _, tp := range s.Types {
-			types = append(types, substituteType(tp, bound))
+			types = append(types, substituteTypeImpl(tp, bound, seen))
 		}
 		var fields []*Symbol
 		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
+			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteTypeImpl(f.Type, bound, seen)})
 		}
-		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Fields: fields, Types: types}}
+		x.Data = &StructType{Name: s.Name, Fields: fields, Types: types}
+		return x
 
 	case t.Is(Enum):
 		e := t.AsEnum()
 		var types []*Type
 		for _, tp := range e.Types {
-			types = append(types, substituteType(tp, bound))
+			types = append(types, substituteTypeImpl(tp, bound, seen))
 		}
 		return &Type{Kind: Enum, Data: &EnumType{Name: e.Name, Types: types, Members: e.Members}}
 
-- 
2.43.0


From 322ec421c573b505540f6659e58454ae1b71dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:00 +0000
Subject: [PATCH 26/43] fix: allow structs without fields to be constructed

---
 codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen.go b/codegen.go
index 11935b0..97c5f07 100644
--- a/codegen.go
+++ b/codegen.go
@@ -436,6 +436,9 @@ func genConstructor(asm asmWriter, f *function, params []*Node, name string, id
 	if f.Type.Is(EnumCons) {
 		size += ptrSize // space for tag
 	}
+	if size == 0 {
+		size = ptrSize // structs without fields are still objects
+	}
 
 	// Malloc memory of appropriate size
 	asm.ins(movq, taggedIntOp(size), rdi)
-- 
2.43.0


From 0390ff618bba9991fe396f1f3d5cd3ad0de5eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:25 +0000
Subject: [PATCH 27/43] fix: reject type expressions used as values

---
 semantic.go  |  1 +
 typecheck.go | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/semantic.go b/semantic.go
index b8158ab..25192fc 100644
--- a/semantic.go
+++ b/semantic.go
@@ -41,6 +41,7 @@ const (
 	errTypeParameterNotKnownMsg = "%v:%d:%d: error, type parameter(s) '%v' of return type '%v' not known, explicit function call type parameters required"
 	errEmptyArrayLiteralMsg     = "%v:%d:%d: error, empty array literal not allowed ... yet!"
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
+	errTypeNotValueMsg          = "%v:%d:%d: error, type '%v' is not a value"
 	errExternalFnValueMsg       = "%v:%d:%d: error, external function '%v' cannot be used as a value"
 	errTooManyCapturesMsg       = "%v:%d:%d: error, function captures '%v' variables which exceeds maximum of '%v'"
 	maxCaseArgCount             = 5
diff --git a/typecheck.go b/typecheck.go
index b361fff..d021d78 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -468,7 +468,10 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 		}
 
 	case opNamedType, opFuncType, opArrayType:
-		n.typ = instantiateType(symtab, n, &errs)
+		// Types are only allowed in type arguments & as last argument to unsafe function
+		errs = append(errs, semanticError(errTypeNotValueMsg, n.token))
+		goto end
+
 	default:
 		panic(fmt.Sprintf("Node type [%v] not processed during type check!", nodeTypes[n.op]))
 	}
@@ -622,23 +625,25 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 
 	// Type check type parameters
 	for _, param := range n.params {
-		errs = append(errs, typeCheck(param, symtab, fn, debug)...)
+		param.typ = instantiateType(symtab, param, &errs)
 		if !param.hasType() {
 			return errs
 		}
 	}
 
 	// Type check args
-	for _, arg := range n.stmts {
+	for i, arg := range n.stmts {
 		if arg.hasType() {
 			continue
 		}
-		switch arg.op {
-		case opIdentifier:
+		switch {
+		case arg.Is(opIdentifier):
 			err := typeCheckIdentifier(arg, symtab, true)
 			if err != nil {
 				return append(errs, err)
 			}
+		case arg.Is(opNamedType, opFuncType, opArrayType) && n.left.token.Val == "unsafe" && i == 2:
+			arg.typ = instantiateType(symtab, arg, &errs)
 		default:
 			errs = append(errs, typeCheck(arg, symtab, fn, debug)...)
 		}
-- 
2.43.0


From 556a08a7a98253b35cb0407fdf3bc01df6e5c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:46 +0000
Subject: [PATCH 28/43] fix: reject selection of a field from an uncalled
 function

---
 typecheck.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index d021d78..8c9e256 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -294,8 +294,6 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			var strct *StructType
 			if left.typ.Is(Struct) {
 				strct = left.typ.AsStruct()
-			} else if left.typ.IsFunction(Struct) && left.op == opFuncCall {
-				strct = left.typ.AsFunction().ret.AsStruct()
 			} else {
 				errs = append(errs, semanticError(errNotStructMsg, left.token))
 				goto end
-- 
2.43.0


From 23bc65591c3d430fb998282f3664c0dbef23785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:22 +0000
Subject: [PATCH 29/43] fix: do not share assembly files between compilations

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index ba2e466..3273820 100644
--- a/main.go
+++ b/main.go
@@ -136,12 +136,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	// Create assembly file
 	basename := filepath.Base(progPath)
 	progName := strings.TrimSuffix(basename, filepath.Ext(basename))
-	asmPath := fmt.Sprintf("%v/%v.S", os.TempDir(), progName)
-	os.Remove(asmPath) // Ignore error
-	f, err := os.Create(asmPath)
+	f, err := ioutil.TempFile("", progName+".*.S") // NOTE: Programs with same name may be compiled concurrently
 	if err != nil {
 		return "", []error{err}
 	}
+	asmPath := f.Name()
+	defer os.Remove(asmPath) // Ignore error
 
 	// Generate assembly
 	asm := NewGasWriter(f, options.showAsm)
-- 
2.43.0


From 99847f08c74beb70f77a924baed69408fb467835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:27 +0000
Subject: [PATCH 30/43] fix: number anonymous functions per compilation

---
 closures.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/closures.go b/closures.go
index 1ef9cf0..13c682d 100644
--- a/closures.go
+++ b/closures.go
@@ -5,14 +5,12 @@ import (
 	"github.com/g-dx/clarac/lex"
 )
 
-var id = uint(0) // TODO: Find a better solution to this...
 
 func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
-		id += 1
-
+		id := len(rootNode.stmts) // Always increases as hoisted functions are added to root
 		freeVars := clIdentifyFreeVars(n)
 		if len(freeVars) > 0 {
 
-- 
2.43.0


From 3cd031baa502c5d3453c113dec79c66372866cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:30 +0000
Subject: [PATCH 31/43] fix: call the result of a call made through a selection

---
 typecheck.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 8c9e256..07bb86b 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -234,6 +234,17 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 		}
 
 	case opDot:
+		// Call of a call's result on right: the selection is of the function called first
+		if right.op == opFuncCall && right.left.op == opFuncCall {
+			n.op = opFuncCall
+			n.token = right.token
+			n.params = right.params
+			n.stmts = right.stmts
+			n.left = &Node{op: opDot, token: lex.WithVal(right.token, "."), left: left, right: right.left}
+			n.right = nil
+			return append(errs, typeCheck(n, symtab, fn, debug)...)
+		}
+
 		errs = append(errs, typeCheck(left, symtab, fn, debug)...)
 
 		if !left.hasType() {
-- 
2.43.0


From 3bfebcf47fe6e36a29d55b9dc2bcfb86df6b6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:10 +0000
Subject: [PATCH 32/43] fix: match over a generic enum where a type parameter
 has the enum's name

---
 typecheck.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 07bb86b..f5f8861 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -433,7 +433,7 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 		// to ensure variables are correctly typed
 		bound := emptyMap
 		if len(enum.Types) > 0 {
-			s, _ := symtab.ResolveAll(enum.Name, func(s *Symbol) bool { return s.IsType })
+			s, _ := symtab.ResolveAll(enum.Name, func(s *Symbol) bool { return s.IsType && s.Type.Is(Enum) })
 			bound = make(map[*Type]*Type)
 			for i, t := range enum.Types {
 				bound[s.Type.AsEnum().Types[i]] = t
-- 
2.43.0


From 8df5a474d7af4e8b42225b1d58a5ca2253a8c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:36 +0000
Subject: [PATCH 33/43] fix: declare a type with the name of a runtime function

---
 closures.go |  2 +-
 codegen.go  |  6 +++---
 semantic.go |  6 +++---
 symtab.go   | 12 ++++++++++++
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/closures.go b/closures.go
index 13c682d..1b8ee19 100644
--- a/closures.go
+++ b/closures.go
@@ -94,7 +94,7 @@ func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 		// Closure/Anonymous/Fn Pointer Call Site
 		// ----------------------------------------------------------
 
-		s := rootNode.symtab.MustResolve("invokeDynamic")
+		s := rootNode.symtab.MustResolveFn("invokeDynamic")
 
 		// Function value is an argument too
 		if len(n.stmts) >= maxFnArgCount {
diff --git a/codegen.go b/codegen.go
index 97c5f07..4c4532c 100644
--- a/codegen.go
+++ b/codegen.go
@@ -104,9 +104,9 @@ func codegen(symtab *SymTab, tree []*Node, asm asmWriter) error {
 	// ---------------------------------------------------------------------------------------
 
 	// Runtime functions declared in Clara code
-	ioob := symtab.MustResolve("indexOutOfBounds")
-	alloc := symtab.MustResolve("claralloc")
-	entrypoint := symtab.MustResolve("entrypoint")
+	ioob := symtab.MustResolveFn("indexOutOfBounds")
+	alloc := symtab.MustResolveFn("claralloc")
+	entrypoint := symtab.MustResolveFn("entrypoint")
 
 	// Holds compilation state for current function
 	fn := &function{}
diff --git a/semantic.go b/semantic.go
index 25192fc..4cd4cef 100644
--- a/semantic.go
+++ b/semantic.go
@@ -525,8 +525,8 @@ func lowerForStatement(n *Node) {
 
 func rewriteArrayLiteralExpr(n *Node, symtab *SymTab) {
 	if n.Is(opArrayLit) {
-		setElement := symtab.MustResolve("setElement")
-		x := fnCallBySym(lex.NoToken, symtab.MustResolve("arrayNoInit"), intLit(len(n.stmts)))
+		setElement := symtab.MustResolveFn("setElement")
+		x := fnCallBySym(lex.NoToken, symtab.MustResolveFn("arrayNoInit"), intLit(len(n.stmts)))
 		for i, expr := range n.stmts {
 			if i < len(n.stmts) {
 				x = fnCallBySym(lex.NoToken, setElement, x, intLit(i), expr)
@@ -566,7 +566,7 @@ func lowerMatchStatement(symtab *SymTab, n *Node) {
 		matchExpr := das(matchVar, n.left)
 
 		// Convert cases to if/else if
-		asEnum := symtab.MustResolve("asEnum")
+		asEnum := symtab.MustResolveFn("asEnum")
 		enum := symtab.MustResolve("enum_").Type.AsStruct()
 		var cur *Node
 		for i, cas := range n.stmts {
diff --git a/symtab.go b/symtab.go
index d1faa2d..e950417 100644
--- a/symtab.go
+++ b/symtab.go
@@ -535,6 +535,18 @@ func (st *SymTab) MustResolve(name string) *Symbol {
 	return s
 }
 
+// NOTE: Types may share their name with a function
+func (st *SymTab) MustResolveFn(name string) *Symbol {
+	s := st.MustResolve(name)
+	if s.IsType {
+		s = s.Next
+	}
+	if s == nil {
+		panic(fmt.Sprintf("Required function '%v' not found!", name))
+	}
+	return s
+}
+
 func (st *SymTab) Parent() *SymTab {
 	return st.parent
 }
-- 
2.43.0


From 554a3e677787778b3b11c072582c7257ef6dfe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:50 +0000
Subject: [PATCH 34/43] fix: check calls of variables named printf, debug or
 unsafe

---
 ast.go       |  5 +++++
 typecheck.go | 12 ++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/ast.go b/ast.go
index 1e7b8fb..6030b4d 100644
--- a/ast.go
+++ b/ast.go
@@ -56,6 +56,11 @@ func (n *Node) isReadOnly() bool {
 	}
 }
 
+// n should be type checked before call!
+func (n *Node) isGlobal(name string) bool {
+	return n.op == opIdentifier && n.sym.IsGlobal && n.sym.Name == name
+}
+
 func (n *Node) isFuncDcl() bool {
 	switch n.op {
 	case opBlockFnDcl, opExprFnDcl, opExternFnDcl, opConsFnDcl:
diff --git a/typecheck.go b/typecheck.go
index f5f8861..9056793 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -651,7 +651,7 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 			if err != nil {
 				return append(errs, err)
 			}
-		case arg.Is(opNamedType, opFuncType, opArrayType) && n.left.token.Val == "unsafe" && i == 2:
+		case arg.Is(opNamedType, opFuncType, opArrayType) && n.left.isGlobal("unsafe") && i == 2:
 			arg.typ = instantiateType(symtab, arg, &errs)
 		default:
 			errs = append(errs, typeCheck(arg, symtab, fn, debug)...)
@@ -662,21 +662,17 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 	}
 
 	// SPECIAL CASE: Skip dealing with variadic functions as printf & debug are the only ones
-	if n.left.token.Val == "printf" || n.left.token.Val == "debug" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
-		n.left.sym = s
+	if n.left.isGlobal("printf") || n.left.isGlobal("debug") {
 		n.typ = nothingType
 		return append(errs, checkFnValues(n.stmts)...)
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
-	if n.left.token.Val == "unsafe" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
-		unsafe := s.Type.AsFunction()
+	if n.left.isGlobal("unsafe") {
+		unsafe := n.left.sym.Type.AsFunction()
 		if len(n.stmts) != 3 {
 			return append(errs, semanticError2(errInvalidNumberArgsMsg, n.left.token, len(n.stmts), len(unsafe.Params)))
 		}
-		n.left.sym = s
 		n.typ = n.stmts[len(n.stmts)-1].typ
 		return append(errs, checkFnValues(n.stmts)...)
 	}
-- 
2.43.0


From df6a579fa3f6b08befa9f6e9233c71ab3b3678f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:56 +0000
Subject: [PATCH 35/43] fix: diagnose a type with the name of a struct
 constructor

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 4cd4cef..5868bdf 100644
--- a/semantic.go
+++ b/semantic.go
@@ -644,7 +644,7 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 	if _, found := root.symtab.Resolve(constructorName); found {
 		var n *Node
 		for _, x := range root.stmts {
-			if x.isFuncDcl() && x.token.Val == constructorName {
+			if (x.isFuncDcl() || x.Is(opStructDcl, opEnumDcl)) && x.token.Val == constructorName {
 				n = x
 				break
 			}
-- 
2.43.0


From 471880bd347d4753b6d95d78b75575c935897676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:10 +0000
Subject: [PATCH 36/43] fix: reject a negative length when cutting a string out
 of bytes

---
 install/lib/strings.clara | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index dee5118..4f3e33a 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -151,6 +151,7 @@ fn copyString(src: string, srcPos: int, dest: bytes, destPos: int) {
 fn toString(b: bytes) string = toString(b, b.length())
 fn toString(b: bytes, length: int) string = toString(b, 0, length)
 fn toString(b: bytes, pos: int, length: int) string {
+    assert(length >= 0, "length is out of range")
     s := Bytes(length + 1) // + 1 for NUL byte
     s.unsafe(0, type(bytesHeader)).length = length // Ugh!
     copyArray(b, pos, s, 0)
-- 
2.43.0


From 0fe7c7a5337126749579dee43942601afc45f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 37/43] fix: maps accept keys whose hash is negative

---
 install/lib/map.clara | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/install/lib/map.clara b/install/lib/map.clara
index 3db5a05..a4ec79c 100644
--- a/install/lib/map.clara
+++ b/install/lib/map.clara
@@ -67,13 +67,13 @@ fn remove«K, V»(m: map«K, V», key: K) option«V» {
 
 fn orElse«K, V»(m: map«K, V», key: K, other: V) V = m.get(key).orElse(other)
 
-fn indexFor«K, V»(m: map«K, V», key: K) int = m.hasher(key).mod(m.buckets.length)
+fn indexFor«K, V»(m: map«K, V», key: K) int = slotFor(m.hasher(key), m.buckets.length)
 
 fn resize«K, V»(m: map«K, V») {
     buckets := createBuckets«K, V»(m.buckets.length << 1) // Double size of array
     for bucket in m.buckets {
         bucket.foreach(fn(e: entry«K, V») {
-            slot := m.hasher(e.key).mod(buckets.length)
+            slot := slotFor(m.hasher(e.key), buckets.length)
             buckets[slot] = buckets[slot].append(e)
         })
     }
@@ -81,6 +81,9 @@ fn resize«K, V»(m: map«K, V») {
     m.buckets = buckets
 }
 
+// Hashes may be negative so masks the low bits by assuming power of 2 sizing
+fn slotFor(hash: int, size: int) int = hash & (size - 1)
+
 // Calculates map resizing threshold using a fixed 0.75 load factor by assuming power of 2 sizing
 fn threshold(size: int) int = size - (size >> 2)
 
-- 
2.43.0


From b1f804d9054b0e9d1db927e51501d48a00a22eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:53 +0000
Subject: [PATCH 38/43] fix: byte buffers created without capacity can grow

---
 install/lib/strings.clara | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 4f3e33a..efc7f86 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -117,6 +117,9 @@ fn append(buf: byteBuffer, b: int) {
 // TODO: Should be "private"
 fn grow(buf: byteBuffer, requiredSize: int) {
     newSize := buf.data.length() * 2
+    if newSize == 0 {
+        newSize = requiredSize // Doubling nothing never reaches the required size
+    }
     while newSize < requiredSize {
         newSize = newSize * 2
     }
-- 
2.43.0


From 85c7a405392b0e4b96b5578c4033b904bf883194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:16 +0000
Subject: [PATCH 39/43] fix: copying large byte arrays does not exhaust the
 stack

---
 install/lib/arrays.clara | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 6affe66..c25b1c5 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -1,11 +1,11 @@
 // ---------------------------------------------------------------------------------------------------------------------
 
 fn copyArray(src: bytes, srcPos: int, dest: bytes, destPos: int) {
-    if src.length() == srcPos or dest.length() == destPos {
-        return
+    while not (src.length() == srcPos or dest.length() == destPos) {
+        dest.set(destPos, src.get(srcPos))
+        srcPos = srcPos+1
+        destPos = destPos+1
     }
-    dest.set(destPos, src.get(srcPos))
-    copyArray(src, srcPos+1, dest, destPos+1)
 }
 
 fn setElement«T»(src: []T, pos: int, val: T) []T {
-- 
2.43.0


From 09eed1636dd14c42c2a0e373e7b8fd2422182f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:58 +0000
Subject: [PATCH 40/43] fix: stop at a function literal whose types are wrong

---
 typecheck.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 9056793..4630514 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -214,8 +214,11 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 				errs = append(errs, err)
 				goto end
 			}
+			if typeErrs := instantiateFunctionTypes(n); len(typeErrs) > 0 {
+				errs = append(errs, typeErrs...)
+				goto end
+			}
 			n.typ = n.sym.Type
-			errs = append(errs, instantiateFunctionTypes(n)...)
 		}
 
 		// Type check stmts
-- 
2.43.0


From 203c8a2d272c2e60839756899b07c7246e7471cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:33 +0000
Subject: [PATCH 41/43] fix: keep the declared type of a field whose type
 arguments are wrong

---
 semantic.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index 5868bdf..6769fec 100644
--- a/semantic.go
+++ b/semantic.go
@@ -238,8 +238,9 @@ loop:
 func instantiateFieldTypes(n *Node) (errs []error) {
 	for _, field := range n.stmts {
 		// TODO: Set field.typ to new type as well?
-		instantiated := instantiateType(n.symtab, field.left, &errs)
-		field.sym.Type = instantiated
+		if instantiated := instantiateType(n.symtab, field.left, &errs); instantiated != nil {
+			field.sym.Type = instantiated
+		}
 	}
 	return errs
 }
-- 
2.43.0


From e876f17d6ab26e75dc2b01fbec8c882a84b6a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:44 +0000
Subject: [PATCH 42/43] fix: instantiate struct fields independently of the
 order of declarations

---
 symtab.go    | 11 +++++++++++
 typecheck.go | 30 ++++++++++--------------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/symtab.go b/symtab.go
index e950417..310c892 100644
--- a/symtab.go
+++ b/symtab.go
@@ -284,9 +284,20 @@ type StructType struct {
 	Name   string
 	Fields []*Symbol
 	Types  []*Type
+
+	// Set only for instantiations of a generic struct
+	generic *StructType
+	bound   map[*Type]*Type
 }
 
 func (st *StructType) GetField(name string) *Symbol {
+	if st.generic != nil {
+		field := st.generic.GetField(name)
+		if field == nil {
+			return nil
+		}
+		return &Symbol{Name: field.Name, Addr: field.Addr, Type: substituteType(field.Type, st.bound)}
+	}
 	for _, field := range st.Fields {
 		if field.Name == name {
 			return field
diff --git a/typecheck.go b/typecheck.go
index 4630514..6b9e2fd 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -843,49 +843,39 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
 	}
-	return substituteTypeImpl(t, bound, make(map[*Type]*Type))
-}
-
-// NOTE: Structs may be recursive so those already seen are not substituted again
-func substituteTypeImpl(t *Type, bound map[*Type]*Type, seen map[*Type]*Type) *Type {
 	switch {
 	case t.Is(Array):
-		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteTypeImpl(t.AsArray().Elem, bound, seen)}}
+		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteType(t.AsArray().Elem, bound)}}
 
 	case t.Is(Function):
 		f := t.AsFunction()
 		var params []*Type
 		for _, p := range f.Params {
-			params = append(params, substituteTypeImpl(p, bound, seen))
+			params = append(params, substituteType(p, bound))
 		}
-		returnType := substituteTypeImpl(f.ret, bound, seen)
+		returnType := substituteType(f.ret, bound)
 		// TODO: Should Data be copied too?
 		return &Type{Kind: Function, Data:
 			&FunctionType{Kind: f.Kind, isVariadic: f.isVariadic, ret: returnType, Params: params, Data: f.Data, RawValues: f.RawValues}}
 
 	case t.Is(Struct):
-		if x, ok := seen[t]; ok {
-			return x
-		}
-		x := &Type{Kind: Struct}
-		seen[t] = x
 		s := t.AsStruct()
 		var types []*Type
 		for _, tp := range s.Types {
-			types = append(types, substituteTypeImpl(tp, bound, seen))
+			types = append(types, substituteType(tp, bound))
 		}
-		var fields []*Symbol
-		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteTypeImpl(f.Type, bound, seen)})
+		// NOTE: Fields are substituted when needed as they may be recursive or not processed yet
+		params := make(map[*Type]*Type)
+		for k, v := range bound {
+			params[k] = v
 		}
-		x.Data = &StructType{Name: s.Name, Fields: fields, Types: types}
-		return x
+		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Types: types, generic: s, bound: params}}
 
 	case t.Is(Enum):
 		e := t.AsEnum()
 		var types []*Type
 		for _, tp := range e.Types {
-			types = append(types, substituteTypeImpl(tp, bound, seen))
+			types = append(types, substituteType(tp, bound))
 		}
 		return &Type{Kind: Enum, Data: &EnumType{Name: e.Name, Types: types, Members: e.Members}}
 
-- 
2.43.0


From ab211c3d8c8d7a766cfdca5018ae89b4054d9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:54 +0000
Subject: [PATCH 43/43] fix: functions may have more than 4096 variables

---
 asm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asm.go b/asm.go
index c615527..51f3fa4 100644
--- a/asm.go
+++ b/asm.go
@@ -20,7 +20,7 @@ type operand interface {
 type memOp struct {
 	base  reg
 	idx   reg
-	disp  int16
+	disp  int32
 	scl   int16
 	indir bool
 	deref bool
@@ -37,7 +37,7 @@ func (mo memOp) scale(m int) memOp {
 }
 
 func (mo memOp) displace(m int) memOp {
-	mo.disp = int16(m)
+	mo.disp = int32(m)
 	return mo
 }
 
@@ -206,7 +206,7 @@ func (r reg) indirect() memOp {
 }
 
 func (r reg) displace(i int) memOp {
-	if i > math.MaxInt16 || i < math.MinInt16 {
+	if i > math.MaxInt32 || i < math.MinInt32 {
 		panic(fmt.Sprintf("Cannot represent displacement: %v", i))
 	}
 	return r.deref().displace(i)
-- 
2.43.0

