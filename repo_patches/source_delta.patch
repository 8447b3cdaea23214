From 6f6a6484a044693050afcacc0004a36edb08e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 01/52] fix: gap pool added a gap twice, overlapping
 functionalities

---
 internal/gap/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/gap/pool.go b/internal/gap/pool.go
index 7bdd670..8b48c60 100644
--- a/internal/gap/pool.go
+++ b/internal/gap/pool.go
@@ -18,8 +18,8 @@ func (p *Pool) Add(g Gap) {
 				p.singles[i] = g
 				return
 			}
-			p.singles = append(p.singles, g)
 		}
+		p.singles = append(p.singles, g)
 	case Array:
 		if len(p.arrays) == 0 {
 			p.arrays = append(p.arrays, g)
@@ -33,6 +33,7 @@ func (p *Pool) Add(g Gap) {
 				return
 			}
 		}
+		p.arrays = append(p.arrays, g)
 	}
 }
 
-- 
2.43.0


From b9d271c4b49ce495317f5c1473e3a053884e2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 02/52] fix: remainder of a write unsafe gap must stay write
 unsafe

---
 internal/reg/status.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a8ce16e..7ee8fbe 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -17,9 +17,12 @@ func regAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 
 func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
+	writeSafe := true
 
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		// The register holding the gap may also hold a writable functionality.
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -30,7 +33,7 @@ func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
@@ -74,9 +77,12 @@ func regNonAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 
 func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
+	writeSafe := true
 
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		// The register holding the gap may also hold a writable functionality.
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -87,7 +93,7 @@ func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
-- 
2.43.0


From e19886694c37344e272f6dc960f8cd8ecd92201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 03/52] fix: duplicated names of blackboxes, groups, irqs,
 params, returns and floats must be detected

---
 internal/util/block/block.go                   | 15 +++++++++++++++
 internal/util/constContainer/constContainer.go |  3 +++
 internal/util/group/group.go                   | 15 +++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/internal/util/block/block.go b/internal/util/block/block.go
index c8a3d49..ea55add 100644
--- a/internal/util/block/block.go
+++ b/internal/util/block/block.go
@@ -16,11 +16,26 @@ func AddStream(b *fn.Block, s *fn.Stream)      { b.Streams = append(b.Streams, s
 func AddSubblock(b *fn.Block, s *fn.Block)     { b.Subblocks = append(b.Subblocks, s) }
 
 func HasFunctionality(blk *fn.Block, name string) bool {
+	for i := range blk.Blackboxes {
+		if blk.Blackboxes[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Configs {
 		if blk.Configs[i].Name == name {
 			return true
 		}
 	}
+	for i := range blk.Groups {
+		if blk.Groups[i].Name == name {
+			return true
+		}
+	}
+	for i := range blk.Irqs {
+		if blk.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Masks {
 		if blk.Masks[i].Name == name {
 			return true
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index ec9ae74..eb5941f 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -13,6 +13,9 @@ func HasConst(c cnst.Container, name string) bool {
 	if _, ok := c.BoolLists[name]; ok {
 		return true
 	}
+	if _, ok := c.Floats[name]; ok {
+		return true
+	}
 	if _, ok := c.Ints[name]; ok {
 		return true
 	}
diff --git a/internal/util/group/group.go b/internal/util/group/group.go
index 1265cbd..d1cc27c 100644
--- a/internal/util/group/group.go
+++ b/internal/util/group/group.go
@@ -12,11 +12,26 @@ func HasFunctionality(grp *fn.Group, name string) bool {
 			return true
 		}
 	}
+	for i := range grp.Irqs {
+		if grp.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Masks {
 		if grp.Masks[i].Name == name {
 			return true
 		}
 	}
+	for i := range grp.Params {
+		if grp.Params[i].Name == name {
+			return true
+		}
+	}
+	for i := range grp.Returns {
+		if grp.Returns[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Statics {
 		if grp.Statics[i].Name == name {
 			return true
-- 
2.43.0


From a8de45785412b9b32d6fddb4ab2acc3df4d184e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 04/52] fix: parenthesised expression crashed the compiler

---
 internal/prs/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 29d11d9..f62b4b4 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -39,6 +39,8 @@ func MakeExpr(astExpr ast.Expr, src []byte, s Scope) (Expr, error) {
 		expr = MakeBool(e, src)
 	case ast.Float:
 		expr, err = MakeFloat(e, src)
+	case ast.ParenExpr:
+		expr, err = MakeExpr(e.X, src, s)
 	case ast.String:
 		expr = MakeString(e, src)
 	case ast.Time:
-- 
2.43.0


From 42b7c1110dd2242dc84063c7dae23ff645cbaba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 05/52] fix: logical negation and call of qualified identifier
 crashed the parser

---
 internal/ast/expr.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 9b6915b..00a4fa6 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -32,7 +32,7 @@ type (
 
 	// Function Call
 	Call struct {
-		Name tok.Ident
+		Name tok.Token
 		Args []Expr
 	}
 
@@ -305,7 +305,7 @@ tokenLoop:
 }
 
 func buildCallExpr(ctx *context) (Call, error) {
-	call := Call{Name: ctx.tok().(tok.Ident)}
+	call := Call{Name: ctx.tok()}
 	lpi := ctx.idx // Left parenthesis token index
 	ctx.idx += 2
 
@@ -345,8 +345,12 @@ tokenLoop:
 }
 
 func buildUnaryExpr(ctx *context) (UnaryExpr, error) {
-	op := ctx.tok().(tok.Operator)
-	un := UnaryExpr{Op: op}
+	un := UnaryExpr{Op: ctx.tok()}
+	op, ok := ctx.tok().(tok.Operator)
+	if !ok {
+		// Negation is not a binary operator, it binds as tight as possible.
+		op = tok.Exp{}
+	}
 	ctx.idx++
 	x, err := buildExpr(ctx, op)
 	if err != nil {
-- 
2.43.0


From 5d9e1be9dfe8a7af3d705f22cc59a149d9d772f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 06/52] fix: property following a nested body was not
 recognized as property

---
 internal/tok/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6b2db15..6a3bbb4 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -861,7 +861,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 				// otherwise, these are regular identifiers.
 				if prevTok, ok := lastToken(*toks); ok {
 					switch prevTok.(type) {
-					case Newline, Semicolon, Indent:
+					case Newline, Semicolon, Indent, Dedent:
 						// Do nothing, this is property
 					default:
 						t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
@@ -903,7 +903,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 			}
 			// It is part of an expression.
 			switch prevTok.(type) {
-			case Newline, Indent, Semicolon:
+			case Newline, Indent, Dedent, Semicolon:
 				// It is property
 			default:
 				i1, sub, i2 := splitHyphenatedWord()
-- 
2.43.0


From 4b1e31eb992346edb96e44e79acfb8d3476b7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 07/52] fix: positions and splitting of hyphenated words being
 part of an expression

---
 internal/tok/parse.go | 127 +++++++++++++-----------------------------
 1 file changed, 39 insertions(+), 88 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6a3bbb4..4830fc6 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -763,6 +763,25 @@ func isValidQualifiedIdentifier(qi []byte) bool {
 	return unicode.IsUpper(r) || unicode.IsLower(r)
 }
 
+// isHyphenatedProperty returns true if hyphenated word is a property, and false if it is part of an expression.
+func isHyphenatedProperty(word []byte, ctx *context, toks []Token) bool {
+	if _, ok := parseProperty(word, ctx).(None); ok {
+		return false
+	}
+
+	prevTok, ok := lastToken(toks)
+	if !ok {
+		return true
+	}
+
+	switch prevTok.(type) {
+	case Newline, Indent, Dedent, Semicolon:
+		return true
+	}
+
+	return false
+}
+
 // TODO: Refactor, too complex, split into 2 (or more) functions.
 func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	var t Token
@@ -770,46 +789,27 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	word, hasHyphen, hasDot := getWord(ctx.src, ctx.idx)
 
 	qualIdentErrMsg := "symbol name in qualified identifier must start with letter"
-	if hasHyphen && hasDot {
-		// This is for sure part of an expression
-		chunks := bytes.Split(word, []byte{'-'})
-		for i, chunk := range chunks {
-			if bytes.Contains(chunk, []byte{'.'}) {
-				t = QualIdent{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-				if !isValidQualifiedIdentifier(chunk) {
-					return t, Error{qualIdentErrMsg, []Token{t}}
-				}
-			} else {
-				t = Ident{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-			}
-			if i == len(chunks)-1 {
-				return t, nil
-			}
-			*toks = append(*toks, t)
-			ctx.idx += len(chunks[i])
-			t = Sub{ctx.pos()}
-			*toks = append(*toks, t)
-			ctx.idx++
+	// A hyphenated word is either a property or part of an expression.
+	// In the latter case, only the first operand is parsed here.
+	if hasHyphen && (hasDot || !isHyphenatedProperty(word, ctx, *toks)) {
+		word = word[:bytes.IndexByte(word, '-')]
+		hasHyphen = false
+		hasDot = bytes.IndexByte(word, '.') >= 0
+
+		if !hasDot {
+			t = Ident{position{
+				start:  ctx.idx,
+				end:    ctx.idx + len(word) - 1,
+				line:   ctx.line,
+				column: ctx.col(ctx.idx),
+				src:    ctx.src,
+				path:   ctx.path,
+			}}
+			return t, nil
 		}
-	} else if hasDot {
+	}
+
+	if hasDot {
 		// It is qualified identifier
 		t = QualIdent{position{
 			start:  ctx.idx,
@@ -827,26 +827,6 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 		return t, nil
 	}
 
-	splitHyphenatedWord := func() (Ident, Sub, Ident) {
-		i1 := Ident{ctx.pos()}
-		s := Sub{position{line: ctx.line}}
-		i2 := Ident{position{end: ctx.idx + len(word) - 1, line: ctx.line}}
-
-		for i := range word {
-			if word[i] == '-' {
-				i1.end = ctx.idx + i - 1
-
-				s.start = ctx.idx + i
-				s.end = ctx.idx + i
-				s.column = ctx.col(ctx.idx + i)
-
-				i2.start = ctx.idx + i + 1
-				i2.column = ctx.col(ctx.idx + i + 1)
-			}
-		}
-		return i1, s, i2
-	}
-
 	if !hasHyphen {
 		// Firstly assume word is a keyword
 		t = parseKeyword(word, ctx)
@@ -883,36 +863,7 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 			}
 		}
 	} else {
-		// Firstly assume word is a property
 		t = parseProperty(word, ctx)
-		// If it is not property, then it is part of an expression.
-		if _, ok := t.(None); ok {
-			// t is last, as deferred function has to calculate new context index.
-			i1, sub, i2 := splitHyphenatedWord()
-			t = i2
-			*toks = append(*toks, []Token{i1, sub, i2}...)
-			// Assing to t for updating context index in deferred function
-			t = i2
-			return None{}, nil
-		} else {
-			// It might be property, or part of an expression.
-			prevTok, ok := lastToken(*toks)
-			if !ok {
-				// Safe to return, time literal units do not contain hyphen '-'.
-				return t, nil
-			}
-			// It is part of an expression.
-			switch prevTok.(type) {
-			case Newline, Indent, Dedent, Semicolon:
-				// It is property
-			default:
-				i1, sub, i2 := splitHyphenatedWord()
-				*toks = append(*toks, []Token{i1, sub, i2}...)
-				// Assing to t for updating context index in deferred function
-				t = i2
-				return None{}, nil
-			}
-		}
 	}
 
 	// The word might be the unit of time literal
-- 
2.43.0


From 1100cad3255128f99a3bf51a3d21284e726c2843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 08/52] fix: qualified identifier with empty symbol name
 crashed the lexer

---
 internal/tok/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 4830fc6..6fec18b 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -759,6 +759,9 @@ func parseHexInt(ctx *context) (Int, error) {
 func isValidQualifiedIdentifier(qi []byte) bool {
 	aux := bytes.Split(qi, []byte("."))
 	sym := aux[1]
+	if len(sym) == 0 {
+		return false
+	}
 	r := []rune(string(sym))[0]
 	return unicode.IsUpper(r) || unicode.IsLower(r)
 }
-- 
2.43.0


From 17381ea2b543d56492c345e2fd7690c764682dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 09/52] fix: arguments of symbols following a symbol with body
 were not resolved

---
 internal/ins/args.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 8bbd01a..af4716d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -40,7 +40,10 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 		}
 
 		if len(f.Symbols()) > 0 {
-			return resolveArgListsInSymbols(f.Symbols())
+			err := resolveArgListsInSymbols(f.Symbols())
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 711dfa007724eb1a068e207428d1963ef0b6302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 10/52] fix: arguments passed to the parent type and arguments
 bound to own parameters were mixed up

---
 internal/ins/type_chain.go | 17 ++++++++++-------
 internal/prs/inst.go       |  4 ----
 internal/prs/type.go       |  6 ++++--
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index a0b845a..b181e3d 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -4,21 +4,24 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 )
 
+// typeChainIter binds arguments to the parameters of all types in the chain and returns type chain iterator.
+// Arguments are bound before the first iteration, as arguments passed to the
+// ancestor type may depend on the parameters of the descendant type.
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	tc := typeChain
+
+	for i := 0; i+1 < len(tc); i++ {
+		if t, ok := tc[i].(*prs.Type); ok {
+			t.BindArgs(tc[i+1].ResolvedArgs())
+		}
+	}
+
 	i := 0
 	return func() (prs.Functionality, bool) {
 		if i == len(tc) {
 			return nil, false
 		}
-		resolvedArgs := make(map[string]prs.Expr)
-		if (i+1) < len(tc) && tc[i+1].ResolvedArgs() != nil {
-			resolvedArgs = tc[i+1].ResolvedArgs()
-		}
 		typ := tc[i]
-		if resolvedArgs != nil {
-			typ.SetResolvedArgs(resolvedArgs)
-		}
 		i += 1
 		return typ, true
 	}
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index b3992f8..9c7fad1 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -33,10 +33,6 @@ func (i *Inst) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := i.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
-	}
-
 	return i.scope.GetConst(name)
 }
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cca11e5..b8728b1 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -17,7 +17,8 @@ type Type struct {
 
 	params       []Param
 	args         ArgList
-	resolvedArgs map[string]Expr
+	resolvedArgs map[string]Expr // Arguments passed to the parent type
+	boundArgs    map[string]Expr // Arguments bound to the own parameters
 
 	props PropContainer
 	symbolContainer
@@ -29,7 +30,7 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.resolvedArgs[name]; ok {
+	if v, ok := t.boundArgs[name]; ok {
 		return &Const{Value: v}, nil
 	}
 
@@ -59,6 +60,7 @@ func (t Type) Type() string                        { return t.typ }
 func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
+func (t *Type) BindArgs(args map[string]Expr)      { t.boundArgs = args }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
-- 
2.43.0


From fb4c24bd4ce7618369df11fba1d3e747a1ad7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 11/52] fix: missing, excess and unknown arguments must be
 reported

---
 internal/ins/args.go | 84 +++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 47 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index af4716d..4b0037d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -51,10 +51,8 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 }
 
 func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
-	var err error
 	args := symbol.Args()
 	resolvedArgs := make(map[string]prs.Expr)
-	inPositionalArgs := true
 
 	typeSymbol, err := symbol.GetType(symbol.Type())
 	if err != nil {
@@ -63,54 +61,46 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	params := typeSymbol.Params()
 
-	var argName string
-	var argHasName bool
-	for i, p := range params {
-		if inPositionalArgs {
-			if i < len(args) {
-				argHasName = args[i].Name != ""
-				argName = args[i].Name
-			} else {
-				inPositionalArgs = false
-				argHasName = false
-			}
+	if len(args) > len(params) {
+		return nil, fmt.Errorf(
+			"type '%s' takes %d arguments, but %d were provided",
+			symbol.Type(), len(params), len(args),
+		)
+	}
 
-			if argHasName {
-				inPositionalArgs = false
-				if argName == p.Name {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					found := false
-					for _, ar := range args {
-						if ar.Name == p.Name {
-							resolvedArgs[p.Name] = ar.Value
-							found = true
-						}
-					}
-					if !found {
-						resolvedArgs[p.Name] = p.DfltValue
-					}
-				}
-			} else {
-				if i < len(args) {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					resolvedArgs[p.Name] = p.DfltValue
-				}
-			}
-		} else {
-			found := false
-			for _, ar := range args {
-				if ar.Name == p.Name {
-					resolvedArgs[p.Name] = ar.Value
-					found = true
-				}
-			}
-			if !found {
-				resolvedArgs[p.Name] = p.DfltValue
-			}
+	for i, arg := range args {
+		name := arg.Name
+		// Positional arguments always precede keyword arguments.
+		if name == "" {
+			name = params[i].Name
+		} else if !hasParam(params, name) {
+			return nil, fmt.Errorf("type '%s' has no parameter '%s'", symbol.Type(), name)
+		}
+
+		if _, ok := resolvedArgs[name]; ok {
+			return nil, fmt.Errorf("multiple values for parameter '%s' of type '%s'", name, symbol.Type())
+		}
+		resolvedArgs[name] = arg.Value
+	}
+
+	for _, p := range params {
+		if _, ok := resolvedArgs[p.Name]; ok {
+			continue
+		}
+		if p.DfltValue == nil {
+			return nil, fmt.Errorf("missing argument for parameter '%s' of type '%s'", p.Name, symbol.Type())
 		}
+		resolvedArgs[p.Name] = p.DfltValue
 	}
 
 	return resolvedArgs, nil
 }
+
+func hasParam(params []prs.Param, name string) bool {
+	for _, p := range params {
+		if p.Name == name {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 5c33a46fe0ce67f6fd379045017830fc6521680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 12/52] fix: arguments must be resolved against the type
 visible in the enclosing scope

---
 internal/ins/args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 4b0037d..1a6d3ef 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -54,7 +54,7 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 	args := symbol.Args()
 	resolvedArgs := make(map[string]prs.Expr)
 
-	typeSymbol, err := symbol.GetType(symbol.Type())
+	typeSymbol, err := symbol.Scope().GetType(symbol.Type())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 843989fb1c455c7bcd5e269b605550bad15e10f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 13/52] fix: division by zero crashed the compiler

---
 internal/prs/expr.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index f62b4b4..7708619 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -98,6 +98,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Div:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				if x%y == 0 {
 					v = x / y
 				} else {
@@ -107,6 +113,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Rem:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "remainder of division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				v = x % y
 			}
 		case tok.Exp:
-- 
2.43.0


From 3f61143d64fd5b79e9ab7f33f1178468c86c3fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 14/52] fix: array size evaluation error crashed the compiler

---
 internal/ins/common.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index f5b0051..a7489a2 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -26,14 +26,13 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	if inst.IsArray() {
 		isArray = true
 		v, err := inst.Count().Eval()
+		if err != nil {
+			return fn.Func{}, fmt.Errorf("%v", err)
+		}
 
 		if v.Type() != "integer" {
 			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
 		}
-
-		if err != nil {
-			return fn.Func{}, fmt.Errorf("%v", err)
-		}
 		count = int64(v.(val.Int))
 		if count < 0 {
 			return fn.Func{}, tok.Error{
-- 
2.43.0


From 81479a23c6c7476de2c7b48b1569528f39ade8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 15/52] fix: ceil and floor silently accepted arguments of
 invalid types

---
 internal/prs/call.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 5439258..590403f 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -56,16 +56,14 @@ func evalCeil(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("ceil argument evaluation: %v", err)
 	}
 
-	f := float64(0.0)
-
 	switch arg := arg.(type) {
 	case val.Int:
 		return arg, nil
 	case val.Float:
-		f = float64(arg)
+		return val.Int(int64(math.Ceil(float64(arg)))), nil
 	}
 
-	return val.Int(int64(math.Ceil(f))), nil
+	return nil, fmt.Errorf("cannot evaluate ceil for argument of %s type", arg.Type())
 }
 
 func evalFloor(c Call) (val.Value, error) {
@@ -74,16 +72,14 @@ func evalFloor(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("floor argument evaluation: %v", err)
 	}
 
-	f := float64(0.0)
-
 	switch arg := arg.(type) {
 	case val.Int:
 		return arg, nil
 	case val.Float:
-		f = float64(arg)
+		return val.Int(int64(math.Floor(float64(arg)))), nil
 	}
 
-	return val.Int(int64(math.Floor(f))), nil
+	return nil, fmt.Errorf("cannot evaluate floor for argument of %s type", arg.Type())
 }
 
 func evalLog2(c Call) (val.Value, error) {
-- 
2.43.0


From ea878eb66d1cb9d4313693bc8b729cbbc470ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 16/52] fix: reinstantiation in another file of package crashed
 the compiler

---
 internal/prs/pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 0697fa7..3cc262a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -65,7 +65,7 @@ func (p *Package) addInst(i *Inst) error {
 		msg := `reinstantiation of '%s' in package '%s'
   %s:%d:%d
   %s:%d:%d`
-		first, _ := p.symbolContainer.GetConst(i.name)
+		first, _ := p.symbolContainer.GetInst(i.name)
 		return fmt.Errorf(
 			msg, i.name, p.Name,
 			first.File().Path, first.Line(), first.Col(),
-- 
2.43.0


From b8b92ec188aa7abb5552ae61a12388d253108722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 17/52] fix: width property conflict diagnostics lacked
 position

---
 internal/prs/check.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/prs/check.go b/internal/prs/check.go
index dc28aa3..1ed26f3 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,10 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line, r.Col)
+			return tok.Error{
+				Msg:  fmt.Sprintf(msg, "width", "range", r.Line(), r.Col()),
+				Toks: []tok.Token{prop.NameTok, r.NameTok},
+			}
 		}
 	}
 
-- 
2.43.0


From a1665a48e85bee832ebdd42665db9ef3fa95215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 18/52] fix: negative values of value properties crashed the
 compiler

---
 internal/val/bit_str.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index 009a3c7..f8ef439 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -3,6 +3,7 @@ package val
 import (
 	"fmt"
 	"math"
+	"math/big"
 )
 
 // BitStr represents FBDL bit string type.
@@ -162,8 +163,14 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 		return BitStr(s), nil
 	}
 
-	// Negative value handling
-	panic("BitStrFromInt, negative value handling not yet implemented")
+	// U2 encoding, the most significant bit is always set.
+	u2 := new(big.Int).Lsh(big.NewInt(1), uint(width))
+	u2.Add(u2, big.NewInt(i))
 
-	//return BitStr(""), nil
+	if width%4 == 0 {
+		return BitStr("x\"" + u2.Text(16) + "\""), nil
+	} else if width%3 == 0 {
+		return BitStr("o\"" + u2.Text(8) + "\""), nil
+	}
+	return BitStr("b\"" + u2.Text(2) + "\""), nil
 }
-- 
2.43.0


From 7807dd634772934791da54fda47fa9a5bdbb8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 19/52] fix: constants which cannot be evaluated or have
 unsupported type crashed the compiler or were dropped

---
 internal/ins/block.go                         |  5 +-
 internal/ins/const.go                         | 25 ++++++----
 internal/ins/group.go                         |  5 +-
 internal/ins/ins.go                           |  5 +-
 .../util/constContainer/constContainer.go     | 48 +++++++++++--------
 5 files changed, 57 insertions(+), 31 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7fe70c4..292f41b 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -98,7 +98,10 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&blk.Consts, c.Name(), val)
+			err = constContainer.AddConst(&blk.Consts, c.Name(), val)
+			if err != nil {
+				return err
+			}
 		}
 
 		_, ok := s.(*prs.Inst)
diff --git a/internal/ins/const.go b/internal/ins/const.go
index 0c3f184..f0db97d 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -1,37 +1,46 @@
 package ins
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
 )
 
-func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
+func constifyPackages(packages prs.Packages) (map[string]*pkg.Package, error) {
 	cPkgs := map[string]*pkg.Package{}
 
 	// TODO: Resolve name conflicts.
 	for name, pkgs := range packages {
 		if len(pkgs) > 1 {
-			panic("not yet implemented")
+			return nil, fmt.Errorf("%d packages share the name '%s'", len(pkgs), name)
 		}
 		for _, pkg := range pkgs {
-			cPkgs[name] = constifyPkg(pkg)
+			p, err := constifyPkg(pkg)
+			if err != nil {
+				return nil, err
+			}
+			cPkgs[name] = p
 		}
 	}
 
-	return cPkgs
+	return cPkgs, nil
 }
 
-func constifyPkg(pp *prs.Package) *pkg.Package {
+func constifyPkg(pp *prs.Package) (*pkg.Package, error) {
 	p := pkg.Package{}
 
 	for _, c := range pp.Consts {
 		v, err := c.Value.Eval()
 		if err != nil {
-			panic("not yet implemented")
+			return nil, fmt.Errorf("cannot evaluate expression for const '%s': %v", c.Name(), err)
+		}
+		err = constContainer.AddConst(&p.Consts, c.Name(), v)
+		if err != nil {
+			return nil, err
 		}
-		constContainer.AddConst(&p.Consts, c.Name(), v)
 	}
 
-	return &p
+	return &p, nil
 }
diff --git a/internal/ins/group.go b/internal/ins/group.go
index 7699b5b..0333bea 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -104,7 +104,10 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
 				)
 			}
-			constContainer.AddConst(&grp.Consts, c.Name(), val)
+			err = constContainer.AddConst(&grp.Consts, c.Name(), val)
+			if err != nil {
+				return err
+			}
 		}
 
 		_, ok := sym.(*prs.Inst)
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 22f3c46..01c0ef9 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -86,7 +86,10 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		}
 	}
 
-	pkgs := constifyPackages(packages)
+	pkgs, err := constifyPackages(packages)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	return mainBus, pkgs, nil
 }
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index eb5941f..a362498 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -1,6 +1,8 @@
 package constContainer
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
 )
@@ -29,10 +31,10 @@ func HasConst(c cnst.Container, name string) bool {
 	return false
 }
 
-func AddConst(c *cnst.Container, name string, v val.Value) {
-	switch v.(type) {
-	case val.BitStr:
-		panic("not yet implemented")
+// AddConst adds constant to the container.
+// It returns an error if constants of given type are not supported.
+func AddConst(c *cnst.Container, name string, v val.Value) error {
+	switch v := v.(type) {
 	case val.Bool:
 		addBoolConst(c, name, v)
 	case val.Float:
@@ -40,23 +42,27 @@ func AddConst(c *cnst.Container, name string, v val.Value) {
 	case val.Int:
 		addIntConst(c, name, v)
 	case val.List:
-		switch v.(val.List)[0].(type) {
-		case val.BitStr:
-			panic("not yet implemented")
-		case val.Bool:
-			addBoolListConst(c, name, v)
-		case val.Int:
-			addIntListConst(c, name, v)
-		case val.Str:
-			panic("not yet implemented")
-		default:
-			panic("should never happen")
+		ok := false
+		if len(v) > 0 {
+			switch v[0].(type) {
+			case val.Bool:
+				ok = addBoolListConst(c, name, v)
+			case val.Int:
+				ok = addIntListConst(c, name, v)
+			}
+		}
+		if !ok {
+			return fmt.Errorf(
+				"const '%s' is a list which is empty or has elements of unsupported or different types", name,
+			)
 		}
 	case val.Str:
 		addStrConst(c, name, v)
 	default:
-		panic("should never happen")
+		return fmt.Errorf("const '%s' has unsupported type %s", name, v.Type())
 	}
+
+	return nil
 }
 
 func addBoolConst(c *cnst.Container, name string, v val.Value) {
@@ -75,16 +81,17 @@ func addFloatConst(c *cnst.Container, name string, v val.Value) {
 	c.Floats[name] = f
 }
 
-func addBoolListConst(c *cnst.Container, name string, v val.Value) {
+func addBoolListConst(c *cnst.Container, name string, v val.Value) bool {
 	l := constifyBoolList(v.(val.List))
 	if l == nil {
-		return
+		return false
 	}
 
 	if c.BoolLists == nil {
 		c.BoolLists = map[string][]bool{name: l}
 	}
 	c.BoolLists[name] = l
+	return true
 }
 
 func addIntConst(c *cnst.Container, name string, v val.Value) {
@@ -95,16 +102,17 @@ func addIntConst(c *cnst.Container, name string, v val.Value) {
 	c.Ints[name] = i
 }
 
-func addIntListConst(c *cnst.Container, name string, v val.Value) {
+func addIntListConst(c *cnst.Container, name string, v val.Value) bool {
 	l := constifyIntList(v.(val.List))
 	if l == nil {
-		return
+		return false
 	}
 
 	if c.IntLists == nil {
 		c.IntLists = map[string][]int64{name: l}
 	}
 	c.IntLists[name] = l
+	return true
 }
 
 func addStrConst(c *cnst.Container, name string, v val.Value) {
-- 
2.43.0


From 88b9ee912965c6863179afc5e70c9f95c6cea90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 20/52] fix: fbd- prefix was not removed from the implicit
 import name

---
 internal/prs/import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/import.go b/internal/prs/import.go
index 311d636..3f4ee41 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -29,7 +29,7 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 			path = path[1 : len(path)-1]
 			// TODO: Should it be [0] or the last element?
 			name = strings.Split(path, string(os.PathSeparator))[0]
-			if len(name) > 4 && name[0:3] == "fbd-" {
+			if len(name) > 4 && name[0:4] == "fbd-" {
 				name = name[4:]
 			}
 		} else {
-- 
2.43.0


From 33543a50c94bde3ab148735345a9776a4ea2f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 21/52] fix: broken symbolic link stopped package discovery in
 the directory

---
 internal/prs/pre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index cdbd022..d3d9aad 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -90,7 +90,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 			dePath, err = filepath.EvalSymlinks(dePath)
 			// If symlink returns an error, just ignore it.
 			if err != nil {
-				return
+				continue
 			}
 		}
 
-- 
2.43.0


From 90a4bf58cbb50677174673c4e3e29d62536dccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 22/52] fix: file with short name in the package directory
 crashed the compiler

---
 internal/prs/prs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index e49ed09..2d1150d 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -55,7 +55,7 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if file.IsDir() {
 			continue
 		}
-		if file.Name()[len(file.Name())-4:] != ".fbd" {
+		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
-- 
2.43.0


From b116dff05dd3037bdf48d136c16c48306ab84c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 23/52] fix: wrong property name in diagnostics of already set
 blackbox size

---
 internal/ins/blackbox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index e3f2658..dbd2e9f 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -65,7 +65,7 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 		switch p.Name {
 		case "size":
 			if bb.Size != 0 {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "masters")
+				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "size")
 			}
 			bb.Size = int64(v.(val.Int))
 		default:
-- 
2.43.0


From 602650f5ba98a7a87e8ca7484617e136a65177a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 24/52] fix: documentation comments of types and of symbols in
 bodies were lost

---
 internal/ast/body.go  | 8 +++++++-
 internal/ast/build.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/ast/body.go b/internal/ast/body.go
index e04a3d1..8fa39d6 100644
--- a/internal/ast/body.go
+++ b/internal/ast/body.go
@@ -37,13 +37,16 @@ tokenLoop:
 		case tok.Const:
 			consts, err = buildConst(ctx)
 			if len(consts) > 0 {
-				if doc.endLine() == consts[0].Name.Line()+1 {
+				if doc.endLine() == consts[0].Name.Line()-1 {
 					consts[0].Doc = doc
 				}
 				body.Consts = append(body.Consts, consts...)
 			}
 		case tok.Ident:
 			ins, err = buildInst(ctx)
+			if doc.endLine() == ins.Name.Line()-1 {
+				ins.Doc = doc
+			}
 			body.Insts = append(body.Insts, ins)
 		case tok.Property:
 			props, err = buildPropAssignments(ctx)
@@ -55,6 +58,9 @@ tokenLoop:
 			}
 		case tok.Type:
 			typ, err = buildType(ctx)
+			if err == nil && doc.endLine() == typ.Name.Line()-1 {
+				typ.Doc = doc
+			}
 			body.Types = append(body.Types, typ)
 		case tok.Dedent:
 			ctx.idx++
diff --git a/internal/ast/build.go b/internal/ast/build.go
index a110f87..41e1b26 100644
--- a/internal/ast/build.go
+++ b/internal/ast/build.go
@@ -54,6 +54,9 @@ func Build(src []byte, path string) (File, error) {
 			}
 		case tok.Type:
 			typ, err = buildType(&ctx)
+			if err == nil && doc.endLine() == typ.Name.Line()-1 {
+				typ.Doc = doc
+			}
 			f.Types = append(f.Types, typ)
 		default:
 			return f, unexpected(t, "const, type, identifier, import or comment")
-- 
2.43.0


From f3156ffcbf7e096655c0a5ad69ce8d5deb24e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 25/52] fix: documentation comment of the first constant in a
 block of constants and one character lines of documentation were lost

---
 internal/ast/const.go | 5 +++++
 internal/ast/doc.go   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8a74ab5..78d2af3 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -73,6 +73,11 @@ tokenLoop:
 			case tok.Ident:
 				con.Name = t
 				state = Ass
+			case tok.Comment:
+				con.Doc = buildDoc(ctx)
+				ctx.idx--
+			case tok.Newline:
+				continue
 			default:
 				return nil, unexpected(t, "identifier")
 			}
diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index 8a12d0d..e71582b 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -29,7 +29,7 @@ func (d Doc) Text(src []byte) string {
 			}
 		}
 
-		if len(t) > 2 {
+		if len(t) > start {
 			text += t[start:]
 		}
 
-- 
2.43.0


From baa504a45ae37062eb2e423b593071a9c8f87622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 26/52] fix: comments separated by blank lines were merged into
 the documentation comment

---
 internal/ast/doc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index e71582b..6b1b2fa 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -55,6 +55,10 @@ func buildDoc(ctx *context) Doc {
 				prevNewline = true
 			}
 		case tok.Comment:
+			// Blank line separates comments.
+			if t.Line() != doc.endLine()+1 {
+				doc = Doc{}
+			}
 			doc.Lines = append(doc.Lines, t)
 			prevNewline = false
 		default:
-- 
2.43.0


From 11b43757bc206b6397f140c410c373afe666d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 27/52] fix: invalid widths occupied in the first and last
 register of array placed within single register

---
 pkg/fbdl/types/access.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 48cb4cf..c17e77d 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -209,8 +209,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
+	endRegWidth := endBit + 1
 	if regCount == 1 {
-		startRegWidth = itemCount*width - startBit
+		startRegWidth = totalWidth
+		endRegWidth = totalWidth
 	}
 
 	return Access{
@@ -224,7 +226,7 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 		StartBit:      startBit,
 		EndBit:        endBit,
 		StartRegWidth: startRegWidth,
-		EndRegWidth:   endBit + 1,
+		EndRegWidth:   endRegWidth,
 	}
 }
 
-- 
2.43.0


From 36fe5b8ca571d0273aeb8ccdc5a9fc7d150d740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 28/52] fix: widths of ID value and TIMESTAMP access must match
 their widths

---
 internal/reg/reg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 6331b57..dd20b79 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -58,7 +58,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 		hash = hash & ((1 << busWidth) - 1)
 	}
 	// Ignore error, the value has been trimmed to the proper width.
-	val, _ := val.BitStrFromInt(val.Int(hash), busWidth)
+	val, _ := val.BitStrFromInt(val.Int(hash), id.Width)
 	id.InitValue = types.MakeBitStr(val)
 	bus.Statics = append(bus.Statics, id)
 
@@ -67,7 +67,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 			log.Fatalf("'TIMESTAMP' is reserved functionality name in main bus")
 		}
 		ts := timestamp()
-		ts.Access = types.MakeSingleAccess(timestampAddr, 0, busWidth)
+		ts.Access = types.MakeSingleAccess(timestampAddr, 0, ts.Width)
 		bus.Statics = append(bus.Statics, ts)
 	}
 }
-- 
2.43.0


From 5237391dc8074b85b9860207f601d9fe68af5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 29/52] fix: non atomic status array with partially filled last
 register crashed the compiler

---
 internal/reg/status.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index 7ee8fbe..6d59ad5 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -111,9 +111,12 @@ func regNonAtomicStatusArray(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 		// TODO: This is a place for adding a potential Gap.
-	} else if busWidth%st.Width == 0 || st.Count <= busWidth/st.Width || st.Width < busWidth/2 {
+	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
 		// TODO: This is a place for adding a potential Gap.
+	} else if st.Width <= busWidth/2 {
+		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
+		// TODO: This is a place for adding a potential Gap.
 	} else if st.Width > busWidth {
 		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	} else {
-- 
2.43.0


From c6efa70f34660abbb82b072886191ae9a96f161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 30/52] fix: ID was not sensitive to constant names, groups,
 ranges, delays, reset, read and reset values

---
 internal/util/hash/block.go          |  7 ++++
 internal/util/hash/config.go         | 11 ++++++
 internal/util/hash/constContainer.go |  6 ++++
 internal/util/hash/group.go          | 52 ++++++++++++++++++++++++++++
 internal/util/hash/hash.go           |  2 ++
 internal/util/hash/mask.go           |  6 ++++
 internal/util/hash/range.go          | 12 ++++++-
 internal/util/hash/static.go         |  6 ++++
 internal/util/hash/status.go         |  3 ++
 internal/util/hash/stream.go         |  5 +++
 10 files changed, 109 insertions(+), 1 deletion(-)
 create mode 100644 internal/util/hash/group.go

diff --git a/internal/util/hash/block.go b/internal/util/hash/block.go
index 1430b53..d2af879 100644
--- a/internal/util/hash/block.go
+++ b/internal/util/hash/block.go
@@ -13,6 +13,9 @@ func hashBlock(b *fn.Block) uint32 {
 	// Func
 	write(&buf, Hash(&b.Func))
 
+	// Reset
+	buf.Write([]byte(b.Reset))
+
 	// Masters
 	write(&buf, b.Masters)
 
@@ -30,6 +33,10 @@ func hashBlock(b *fn.Block) uint32 {
 	for _, c := range b.Configs {
 		write(&buf, Hash(c))
 	}
+	// Groups
+	for _, g := range b.Groups {
+		write(&buf, Hash(g))
+	}
 	// Irqs
 	for _, i := range b.Irqs {
 		write(&buf, Hash(i))
diff --git a/internal/util/hash/config.go b/internal/util/hash/config.go
index deb830c..9a062ce 100644
--- a/internal/util/hash/config.go
+++ b/internal/util/hash/config.go
@@ -19,6 +19,17 @@ func hashConfig(c *fn.Config) uint32 {
 	// InitValue
 	buf.Write([]byte(c.InitValue))
 
+	// Range
+	if c.Range != nil {
+		write(&buf, Hash(c.Range))
+	}
+
+	// ReadValue
+	buf.Write([]byte(c.ReadValue))
+
+	// ResetValue
+	buf.Write([]byte(c.ResetValue))
+
 	// Width
 	write(&buf, c.Width)
 
diff --git a/internal/util/hash/constContainer.go b/internal/util/hash/constContainer.go
index cad4121..c0562b2 100644
--- a/internal/util/hash/constContainer.go
+++ b/internal/util/hash/constContainer.go
@@ -16,6 +16,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys := maps.Keys(c.Bools)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		write(&buf, c.Bools[key])
 	}
 
@@ -23,6 +24,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.BoolLists)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		list := c.BoolLists[key]
 		for _, val := range list {
 			write(&buf, val)
@@ -33,6 +35,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Floats)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		write(&buf, c.Floats[key])
 	}
 
@@ -40,6 +43,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Ints)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		write(&buf, c.Ints[key])
 	}
 
@@ -47,6 +51,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.IntLists)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		list := c.IntLists[key]
 		for _, val := range list {
 			write(&buf, val)
@@ -57,6 +62,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Strings)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		buf.Write([]byte(c.Strings[key]))
 	}
 
diff --git a/internal/util/hash/group.go b/internal/util/hash/group.go
new file mode 100644
index 0000000..c6ea898
--- /dev/null
+++ b/internal/util/hash/group.go
@@ -0,0 +1,52 @@
+package hash
+
+import (
+	"bytes"
+	"hash/adler32"
+
+	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
+)
+
+func hashGroup(g *fn.Group) uint32 {
+	buf := bytes.Buffer{}
+
+	// Func
+	write(&buf, Hash(&g.Func))
+
+	// Virtual
+	write(&buf, g.Virtual)
+
+	// cnst.Container
+	write(&buf, Hash(&g.Consts))
+
+	// Configs
+	for _, c := range g.Configs {
+		write(&buf, Hash(c))
+	}
+	// Irqs
+	for _, i := range g.Irqs {
+		write(&buf, Hash(i))
+	}
+	// Masks
+	for _, m := range g.Masks {
+		write(&buf, Hash(m))
+	}
+	// Params
+	for _, p := range g.Params {
+		write(&buf, Hash(p))
+	}
+	// Returns
+	for _, r := range g.Returns {
+		write(&buf, Hash(r))
+	}
+	// Statics
+	for _, s := range g.Statics {
+		write(&buf, Hash(s))
+	}
+	// Statuses
+	for _, s := range g.Statuses {
+		write(&buf, Hash(s))
+	}
+
+	return adler32.Checksum(buf.Bytes())
+}
diff --git a/internal/util/hash/hash.go b/internal/util/hash/hash.go
index 8358fef..4743d03 100644
--- a/internal/util/hash/hash.go
+++ b/internal/util/hash/hash.go
@@ -44,6 +44,8 @@ func Hash(data any) uint32 {
 		return hashConfig(d)
 	case *cnst.Container:
 		return hashConstContainer(d)
+	case *fn.Group:
+		return hashGroup(d)
 	case *fn.Irq:
 		return hashIrq(d)
 	case *fn.Mask:
diff --git a/internal/util/hash/mask.go b/internal/util/hash/mask.go
index 53b848a..e2c1a81 100644
--- a/internal/util/hash/mask.go
+++ b/internal/util/hash/mask.go
@@ -19,6 +19,12 @@ func hashMask(m *fn.Mask) uint32 {
 	// InitValue
 	buf.Write([]byte(m.InitValue))
 
+	// ReadValue
+	buf.Write([]byte(m.ReadValue))
+
+	// ResetValue
+	buf.Write([]byte(m.ResetValue))
+
 	// Width
 	write(&buf, m.Width)
 
diff --git a/internal/util/hash/range.go b/internal/util/hash/range.go
index 45026eb..114ce80 100644
--- a/internal/util/hash/range.go
+++ b/internal/util/hash/range.go
@@ -12,7 +12,7 @@ func hashRange(ran types.Range) uint32 {
 	case types.SingleRange:
 		return hashSingleRange(r)
 	case types.ArrayRange:
-		panic("unimplemented")
+		return hashArrayRange(r)
 	default:
 		panic("unimplemented")
 	}
@@ -26,3 +26,13 @@ func hashSingleRange(sr types.SingleRange) uint32 {
 
 	return adler32.Checksum(buf.Bytes())
 }
+
+func hashArrayRange(ar types.ArrayRange) uint32 {
+	buf := bytes.Buffer{}
+
+	for _, r := range ar {
+		write(&buf, Hash(r))
+	}
+
+	return adler32.Checksum(buf.Bytes())
+}
diff --git a/internal/util/hash/static.go b/internal/util/hash/static.go
index 2fe6ea9..fac9c44 100644
--- a/internal/util/hash/static.go
+++ b/internal/util/hash/static.go
@@ -16,6 +16,12 @@ func hashStatic(s *fn.Static) uint32 {
 	// InitValue
 	buf.Write([]byte(s.InitValue))
 
+	// ReadValue
+	buf.Write([]byte(s.ReadValue))
+
+	// ResetValue
+	buf.Write([]byte(s.ResetValue))
+
 	// Width
 	write(&buf, s.Width)
 
diff --git a/internal/util/hash/status.go b/internal/util/hash/status.go
index 08eb5fd..8a34b97 100644
--- a/internal/util/hash/status.go
+++ b/internal/util/hash/status.go
@@ -16,6 +16,9 @@ func hashStatus(s *fn.Status) uint32 {
 	// Atomic
 	write(&buf, s.Atomic)
 
+	// ReadValue
+	buf.Write([]byte(s.ReadValue))
+
 	// Width
 	write(&buf, s.Width)
 
diff --git a/internal/util/hash/stream.go b/internal/util/hash/stream.go
index 6552b54..eef3479 100644
--- a/internal/util/hash/stream.go
+++ b/internal/util/hash/stream.go
@@ -13,6 +13,11 @@ func hashStream(s *fn.Stream) uint32 {
 	// Func
 	write(&buf, Hash(&s.Func))
 
+	// Delay
+	if s.Delay != nil {
+		write(&buf, s.Delay)
+	}
+
 	// Params
 	for _, p := range s.Params {
 		write(&buf, Hash(p))
-- 
2.43.0


From 4c2ea80019d2088c448a9fbbbf54afd176f7a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 31/52] fix: definition of type with parameters was
 instantiated without arguments

---
 internal/ins/ins.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 01c0ef9..f7cf190 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -77,6 +77,11 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 					continue
 				}
 
+				// Type with parameters cannot be instantiated without arguments.
+				if t, ok := symbol.(*prs.Type); ok && len(t.Params()) > 0 {
+					continue
+				}
+
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
-- 
2.43.0


From e9b4095bbf464471a212d380f7460523c375a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 32/52] fix: bus width set in type of the main bus was ignored
 during instantiation

---
 internal/ins/ins.go | 52 +++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index f7cf190..4c32f5f 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -17,27 +17,37 @@ const dfltBusWidth int64 = 32
 var busWidth int64
 
 func setBusWidth(main *prs.Inst) error {
-	prop, ok := main.Props().Get("width")
-	if !ok {
-		busWidth = dfltBusWidth
-		return nil
-	}
+	busWidth = dfltBusWidth
+
+	// The width might be set by any type in the type chain.
+	tci := typeChainIter(resolveToBaseType(main))
+	for {
+		typ, ok := tci()
+		if !ok {
+			break
+		}
 
-	v, err := prop.Value.Eval()
-	if err != nil {
-		return fmt.Errorf(
-			"%s:%s: cannot evaluate main bus 'width' property",
-			main.File().Path, prop.Loc(),
-		)
-	}
+		prop, ok := typ.Props().Get("width")
+		if !ok {
+			continue
+		}
+
+		v, err := prop.Value.Eval()
+		if err != nil {
+			return fmt.Errorf(
+				"%s:%s: cannot evaluate main bus 'width' property",
+				typ.File().Path, prop.Loc(),
+			)
+		}
 
-	if vi, ok := v.(val.Int); ok {
-		busWidth = int64(vi)
-	} else {
-		return fmt.Errorf(
-			"%s:%s: main bus 'width' property must be of integer type, current type %s",
-			main.File().Path, prop.Loc(), v.Type(),
-		)
+		if vi, ok := v.(val.Int); ok {
+			busWidth = int64(vi)
+		} else {
+			return fmt.Errorf(
+				"%s:%s: main bus 'width' property must be of integer type, current type %s",
+				typ.File().Path, prop.Loc(), v.Type(),
+			)
+		}
 	}
 
 	return nil
@@ -52,12 +62,12 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	}
 	log.Printf("debug: instantiating '%s' as the main bus", mainName)
 
-	err = setBusWidth(main)
+	err = resolveArgLists(packages)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
 
-	err = resolveArgLists(packages)
+	err = setBusWidth(main)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
-- 
2.43.0


From 965c4415efabea8513f19a960005a6cfee760792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 33/52] fix: main bus of non bus type crashed the compiler

---
 internal/ins/ins.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 4c32f5f..cb43756 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -95,7 +95,13 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 				f := insFunctionality(prsFn)
 
 				if pkgName == "main" && name == mainName {
-					mainBus = f.(*fn.Block)
+					mainBus, ok = f.(*fn.Block)
+					if !ok {
+						return nil, nil, fmt.Errorf(
+							"%s:%s: main bus '%s' is not a bus, it is of base type '%s'",
+							symbol.File().Path, symbol.Loc(), mainName, f.Type(),
+						)
+					}
 				}
 			}
 		}
-- 
2.43.0


From 275fd800d3ba2851dfc16e1b41234be938866706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 34/52] fix: virtual property set in derived group type was not
 checked

---
 internal/ins/group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ins/group.go b/internal/ins/group.go
index 0333bea..bc92923 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -165,6 +165,13 @@ func addGroupInnerElement(grp *fn.Group, f any) error {
 }
 
 func checkGroup(grp fn.Group) error {
+	// The virtual property might be set after functionalities have been added to the group.
+	if grp.Virtual && (len(grp.Irqs) > 0 || len(grp.Params) > 0 || len(grp.Returns) > 0) {
+		return fmt.Errorf(
+			"virtual group '%s' cannot have irqs, params or returns", grp.Name,
+		)
+	}
+
 	if len(grp.Irqs) > 0 {
 		return checkIrqGroup(grp)
 	}
-- 
2.43.0


From c0c6b086696dce522b3ce74f893161aedb2a0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 35/52] fix: constant depending on itself crashed the compiler

---
 internal/prs/const.go | 16 ++++++++++++++++
 internal/prs/expr.go  |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/prs/const.go b/internal/prs/const.go
index ff69f97..d767378 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -5,16 +5,32 @@ import (
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ast"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
 // Const represents constant definition.
 type Const struct {
 	symbol
 	Value Expr
+
+	evaluating bool // Used for cyclic definition detection.
 }
 
 func (c Const) Kind() SymbolKind { return ConstDef }
 
+// eval evaluates constant value.
+// It returns an error if the value depends on the constant itself.
+func (c *Const) eval() (val.Value, error) {
+	if c.evaluating {
+		return nil, fmt.Errorf("value of constant depends on itself")
+	}
+
+	c.evaluating = true
+	defer func() { c.evaluating = false }()
+
+	return c.Value.Eval()
+}
+
 // buildConsts builds list of Consts defined in the same scope based on the list of ast.Const.
 func buildConsts(astConsts []ast.Const, src []byte, scope Scope) ([]*Const, error) {
 	consts := make([]*Const, 0, len(astConsts))
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 7708619..8ddfd13 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -356,7 +356,7 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant identifier '%s': %v", di.x, err)
 	}
@@ -378,7 +378,7 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant qualified identifier '%s': %v", qi.x, err)
 	}
-- 
2.43.0


From b8fa2c44b5dc2ad94a2c9b7e8ab0992dca9ef820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 36/52] fix: type being its own ancestor crashed the compiler

---
 internal/ins/ins.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index cb43756..d750fbf 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -159,9 +159,9 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 }
 
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
-	typeChain := []prs.Functionality{}
+	typeChain := []prs.Functionality{f}
 
-	if !util.IsBaseType(f.Type()) {
+	for !util.IsBaseType(f.Type()) {
 		var s prs.Symbol
 		var err error
 		if f.Scope() != nil {
@@ -177,9 +177,19 @@ func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 		}
 		typeFn := s.(prs.Functionality)
 
-		typeChain = append(typeChain, resolveToBaseType(typeFn)...)
+		for _, t := range typeChain {
+			if t == typeFn {
+				log.Fatalf(
+					"%s:%d:%d: type '%s' is its own ancestor",
+					f.File().Path, f.Line(), f.Col(), typeFn.Name(),
+				)
+			}
+		}
+
+		// Base type goes first.
+		typeChain = append([]prs.Functionality{typeFn}, typeChain...)
+		f = typeFn
 	}
 
-	typeChain = append(typeChain, f)
 	return typeChain
 }
-- 
2.43.0


From 5e316bd2379c0a03fd608007a982d89489891f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 37/52] fix: recursive instantiation and parameter depending on
 itself crashed the compiler

---
 internal/ins/ins.go  | 14 ++++++++++++++
 internal/prs/type.go | 17 ++++++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index d750fbf..1ffdea4 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -115,9 +115,23 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
+// Types being currently instantiated.
+var instantiating = make(map[prs.Functionality]bool)
+
 func insFunctionality(pf prs.Functionality) fn.Functionality {
 	typeChain := resolveToBaseType(pf)
 
+	for _, t := range typeChain {
+		if instantiating[t] {
+			log.Fatalf(
+				"%s:%d:%d: '%s' instantiates itself",
+				pf.File().Path, pf.Line(), pf.Col(), t.Name(),
+			)
+		}
+		instantiating[t] = true
+		defer delete(instantiating, t)
+	}
+
 	var f fn.Functionality
 	var err error
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index b8728b1..ed55f00 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -17,8 +17,8 @@ type Type struct {
 
 	params       []Param
 	args         ArgList
-	resolvedArgs map[string]Expr // Arguments passed to the parent type
-	boundArgs    map[string]Expr // Arguments bound to the own parameters
+	resolvedArgs map[string]Expr   // Arguments passed to the parent type
+	boundArgs    map[string]*Const // Arguments bound to the own parameters
 
 	props PropContainer
 	symbolContainer
@@ -30,8 +30,8 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.boundArgs[name]; ok {
-		return &Const{Value: v}, nil
+	if c, ok := t.boundArgs[name]; ok {
+		return c, nil
 	}
 
 	return t.scope.GetConst(name)
@@ -60,13 +60,20 @@ func (t Type) Type() string                        { return t.typ }
 func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
-func (t *Type) BindArgs(args map[string]Expr)      { t.boundArgs = args }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+// BindArgs binds arguments to the type parameters.
+func (t *Type) BindArgs(args map[string]Expr) {
+	t.boundArgs = make(map[string]*Const)
+	for name, v := range args {
+		t.boundArgs[name] = &Const{Value: v}
+	}
+}
+
 // buildTypes builds list of Types based on the list of ast.Type.
 func buildTypes(astTypes []ast.Type, src []byte) ([]*Type, error) {
 	types := make([]*Type, 0, len(astTypes))
-- 
2.43.0


From a5c732960ec1503b1ed71e61c9d22cf9396d5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 38/52] fix: errors related to inner types crashed the compiler

---
 internal/prs/type.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/type.go b/internal/prs/type.go
index ed55f00..7b22fe7 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -66,6 +66,18 @@ func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Sy
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+func (t Type) File() *File {
+	if t.file != nil {
+		return t.file
+	}
+
+	if s, ok := t.scope.(Symbol); ok {
+		return s.File()
+	}
+
+	panic("should never happen")
+}
+
 // BindArgs binds arguments to the type parameters.
 func (t *Type) BindArgs(args map[string]Expr) {
 	t.boundArgs = make(map[string]*Const)
-- 
2.43.0


From 64471044b627538a0cb8f3fcdee88aa6295fd975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 39/52] fix: type derived from block must not set the width
 property

---
 internal/ins/block.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 292f41b..69ccfb5 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -32,7 +32,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 		if !ok {
 			break
 		}
-		err := applyBlockType(&blk, typ)
+		err := applyBlockType(&blk, typ, typeChain[0].Type())
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -43,9 +43,9 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	return &blk, nil
 }
 
-func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
+func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error {
 	for _, p := range typ.Props() {
-		if err := util.IsValidProperty(p.Name, "bus"); err != nil {
+		if err := util.IsValidProperty(p.Name, baseType); err != nil {
 			return fmt.Errorf(": %v", err)
 		}
 		if err := checkProp(p); err != nil {
-- 
2.43.0


From 9fd49b4f8fff8bf5d2211b028a230574cc493fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 40/52] fix: bus cannot be instantiated inside a block

---
 internal/ins/block.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 69ccfb5..b9ecac2 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -109,14 +109,17 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 			continue
 		}
 
-		f := insFunctionality(s.(prs.Functionality))
+		// Block functionality type does not tell block from bus.
+		innerType := resolveToBaseType(s.(prs.Functionality))[0].Type()
 
-		if !util.IsValidInnerType(f.Type(), "block") {
+		if !util.IsValidInnerType(innerType, "block") {
 			return fmt.Errorf(
-				invalidInnerTypeMsg, f.GetName(), f.Type(), "block",
+				invalidInnerTypeMsg, s.Name(), innerType, "block",
 			)
 		}
 
+		f := insFunctionality(s.(prs.Functionality))
+
 		if block.HasFunctionality(blk, f.GetName()) {
 			return fmt.Errorf(funcWithNameAlreadyInstMsg, f.GetName())
 		}
-- 
2.43.0


From 9b51fb037c4af8e9489ab48d359c4b0f4e465f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 41/52] fix: size of blackbox set to 0 counts as set

---
 internal/ins/blackbox.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index dbd2e9f..50aed8d 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -11,6 +11,10 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 )
 
+type blackboxDiary struct {
+	sizeSet bool
+}
+
 func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	typeChainStr := fmt.Sprintf("debug: instantiating blackbox, type chain: %s", typeChain[0].Name())
 	for i := 1; i < len(typeChain); i++ {
@@ -25,13 +29,15 @@ func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	bb := fn.Blackbox{}
 	bb.Func = f
 
+	diary := blackboxDiary{}
+
 	tci := typeChainIter(typeChain)
 	for {
 		typ, ok := tci()
 		if !ok {
 			break
 		}
-		err := applyBlackboxType(&bb, typ)
+		err := applyBlackboxType(&bb, typ, &diary)
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -48,7 +54,7 @@ func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	return &bb, nil
 }
 
-func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
+func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality, diary *blackboxDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "blackbox"); err != nil {
 			return fmt.Errorf(": %v", err)
@@ -64,10 +70,11 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 
 		switch p.Name {
 		case "size":
-			if bb.Size != 0 {
+			if diary.sizeSet {
 				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "size")
 			}
 			bb.Size = int64(v.(val.Int))
+			diary.sizeSet = true
 		default:
 			panic(fmt.Sprintf("unhandled '%s' property", p.Name))
 		}
-- 
2.43.0


From 97ca26bbff5e6ad6782276a8cfad92e7bc06757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:59 +0000
Subject: [PATCH 42/52] fix: bus width must be positive

---
 internal/ins/block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index b9ecac2..36d5ff7 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -78,6 +78,9 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "width")
 			}
 			width := int64(v.(val.Int))
+			if width == 0 {
+				return fmt.Errorf("%s: width of bus must be positive", p.Loc())
+			}
 			blk.Width = width
 		default:
 			panic(fmt.Sprintf("unhandled '%s' property", p.Name))
-- 
2.43.0


From b01bfd6d93bee1fa58514df578c1cc4683881153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 43/52] fix: array without any bit must not move the address
 back

---
 pkg/fbdl/types/access.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index c17e77d..a9b37a1 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -206,6 +206,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	firstRegWidth := busWidth - startBit
 
 	regCount := int64(math.Ceil((float64(totalWidth)-float64(firstRegWidth))/float64(busWidth))) + 1
+	// Array without any bit also starts in some register.
+	if regCount < 1 {
+		regCount = 1
+	}
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
-- 
2.43.0


From 0ece6bb51ec1c20d376a87b8e142729d00647bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 44/52] fix: array of zero width statics crashed the compiler

---
 internal/reg/static.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/reg/static.go b/internal/reg/static.go
index c745b58..1535a08 100644
--- a/internal/reg/static.go
+++ b/internal/reg/static.go
@@ -45,7 +45,9 @@ func regStaticArray(st *fn.Static, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
 	// TODO: In all below branches a potential gap can be added.
-	if busWidth/2 < st.Width && st.Width <= busWidth {
+	if st.Width == 0 {
+		acs = types.MakeArrayOneRegAccess(st.Count, addr, 0, st.Width)
+	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
-- 
2.43.0


From 1025391ba9334e331724cfac12da483e2ebe3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 45/52] fix: irq enable bit did not fit the register of one bit
 wide bus

---
 internal/reg/irq.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 7e5e5eb..01dce94 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -32,7 +32,12 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 
 	irq.Access = types.MakeSingleAccess(addr, 0, 1)
 	if irq.AddEnable {
-		irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		if busWidth > 1 {
+			irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		} else {
+			addr++
+			irq.EnableAccess = types.MakeSingleAccess(addr, 0, 1)
+		}
 		addr++
 	}
 	if irq.Clear == "Explicit" {
-- 
2.43.0


From 4979516201e6c77a04940025c5d641530b1d0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 46/52] fix: failed write of the result must not end with
 success

---
 cmd/fbdl/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index dbaccc3..027bf57 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -78,5 +78,8 @@ func main() {
 	if err != nil {
 		log.Fatalf("marshal registerification results: %v", err)
 	}
-	fmt.Printf("%s", string(jsonBytes))
+	_, err = fmt.Printf("%s", string(jsonBytes))
+	if err != nil {
+		log.Fatalf("dump registerification results: %v", err)
+	}
 }
-- 
2.43.0


From 138b43333f49051f580ad99fac12f3d803e45a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:36 +0000
Subject: [PATCH 47/52] fix: comment separated by a blank line documented
 constant of a list

---
 internal/ast/const.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 78d2af3..2678a2a 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -71,6 +71,10 @@ tokenLoop:
 		case FirstId:
 			switch t := ctx.tok().(type) {
 			case tok.Ident:
+				// Blank line separates comment from the constant.
+				if con.Doc.endLine() != t.Line()-1 {
+					con.Doc = Doc{}
+				}
 				con.Name = t
 				state = Ass
 			case tok.Comment:
@@ -101,6 +105,10 @@ tokenLoop:
 		case Id:
 			switch t := ctx.tok().(type) {
 			case tok.Ident:
+				// Blank line separates comment from the constant.
+				if con.Doc.endLine() != t.Line()-1 {
+					con.Doc = Doc{}
+				}
 				con.Name = t
 				state = Ass
 			case tok.Comment:
-- 
2.43.0


From db9c9f639a8df20f782b70aaadd5830388accbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:48 +0000
Subject: [PATCH 48/52] fix: type of the name of the main bus was taken for the
 main bus

---
 internal/ins/ins.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 1ffdea4..d715a23 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -94,7 +94,8 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 
 				f := insFunctionality(prsFn)
 
-				if pkgName == "main" && name == mainName {
+				_, isInst := symbol.(*prs.Inst)
+				if pkgName == "main" && name == mainName && isInst {
 					mainBus, ok = f.(*fn.Block)
 					if !ok {
 						return nil, nil, fmt.Errorf(
-- 
2.43.0


From 932a728e0bc03ef700a34b2fe57c0387de594507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:53 +0000
Subject: [PATCH 49/52] fix: width occupied in the first register of array
 fitting partially filled register

---
 pkg/fbdl/types/access.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index a9b37a1..0814b58 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -301,6 +301,12 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 
 	regCount := int64(math.Ceil(float64(itemCount) / float64(itemsInReg)))
 
+	startRegWidth := width * itemsInReg
+	// The first register is also the end register.
+	if regCount == 1 {
+		startRegWidth = width * itemsInEndReg
+	}
+
 	return Access{
 		Type:          "ArrayNInRegMInEndReg",
 		RegCount:      regCount,
@@ -311,7 +317,7 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 		EndAddr:       startAddr + regCount - 1,
 		StartBit:      0,
 		EndBit:        itemsInEndReg*width - 1,
-		StartRegWidth: width * itemsInReg,
+		StartRegWidth: startRegWidth,
 		EndRegWidth:   width * itemsInEndReg,
 	}
 }
-- 
2.43.0


From 2b28876f094b3612d07ef8507ede323f33355d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:32 +0000
Subject: [PATCH 50/52] fix: exponentiation gave inexact and overflown values

---
 internal/prs/expr.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 8ddfd13..fc86cdc 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -3,6 +3,7 @@ package prs
 import (
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -124,7 +125,31 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Exp:
 			switch y := y.(type) {
 			case val.Int:
-				v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				if y < 0 {
+					if x == 0 {
+						return nil, tok.Error{
+							Msg:  "negative power of zero",
+							Toks: []tok.Token{be.ast.Y.Tok()},
+						}
+					}
+					v = val.Int(int64(math.Pow(float64(x), float64(y))))
+					break
+				}
+				// Floating point numbers are not precise enough.
+				if y > 63 && (x < -1 || 1 < x) {
+					return nil, tok.Error{
+						Msg:  "result of exponentiation does not fit in 64 bits",
+						Toks: []tok.Token{be.ast.X.Tok()},
+					}
+				}
+				r := new(big.Int).Exp(big.NewInt(int64(x)), big.NewInt(int64(y)), nil)
+				if !r.IsInt64() {
+					return nil, tok.Error{
+						Msg:  "result of exponentiation does not fit in 64 bits",
+						Toks: []tok.Token{be.ast.X.Tok()},
+					}
+				}
+				v = val.Int(r.Int64())
 			}
 		case tok.LShift:
 			switch y := y.(type) {
-- 
2.43.0


From 402cdb367b87f83af2aa762a469d3a58d55b35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:38 +0000
Subject: [PATCH 51/52] fix: logarithms of numbers that have none, and of
 powers of ten

---
 internal/prs/call.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 590403f..fa3bca8 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -104,6 +104,10 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("log2 argument must be positive, current value %g", f)
+	}
+
 	r := math.Log2(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
@@ -134,7 +138,15 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("log10 argument must be positive, current value %g", f)
+	}
+
 	r := math.Log10(f)
+	// Log10 is not precise for all powers of ten.
+	if n := math.Round(r); math.Pow10(int(n)) == f {
+		r = n
+	}
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
 	}
-- 
2.43.0


From 50ef3efa9eb998d1c6728cf39f9f7a8f8ea037d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:31 +0000
Subject: [PATCH 52/52] fix: arrays of configs and statics wider than the bus
 crashed the compiler

---
 internal/reg/config.go | 2 +-
 internal/reg/static.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/reg/config.go b/internal/reg/config.go
index adbd386..72fde90 100644
--- a/internal/reg/config.go
+++ b/internal/reg/config.go
@@ -28,7 +28,7 @@ func regAtomicConfigArray(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 	} else if cfg.Width <= busWidth/2 {
 		acs = types.MakeArrayNInRegMInEndRegAccess(cfg.Count, addr, cfg.Width)
 	} else {
-		panic("unimplemented")
+		acs = types.MakeArrayOneInNRegsAccess(cfg.Count, addr, cfg.Width)
 	}
 
 	addr += acs.RegCount
diff --git a/internal/reg/static.go b/internal/reg/static.go
index 1535a08..9dae9f2 100644
--- a/internal/reg/static.go
+++ b/internal/reg/static.go
@@ -54,7 +54,7 @@ func regStaticArray(st *fn.Static, addr int64, gp *gap.Pool) int64 {
 	} else if st.Width <= busWidth/2 {
 		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
 	} else {
-		panic("unimplemented")
+		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	}
 	addr += acs.RegCount
 
-- 
2.43.0

