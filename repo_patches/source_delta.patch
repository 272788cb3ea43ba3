From 219bef646049c183922c9da7f5029c07d99f8c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 01/66] fix: remove debug print from int equality

---
 est/expr/int.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/est/expr/int.go b/est/expr/int.go
index bdbbe7a..7c10dde 100644
--- a/est/expr/int.go
+++ b/est/expr/int.go
@@ -1,7 +1,6 @@
 package expr
 
 import (
-	"fmt"
 	"github.com/viant/velty/ast"
 	est "github.com/viant/velty/est"
 	"unsafe"
@@ -149,7 +148,6 @@ func (b *binaryExpr) indirectIntEq(state *est.State) unsafe.Pointer {
 	y := b.y.Exec(state)
 	z := est.FalseValuePtr
 
-	fmt.Println(*(*int)(x), *(*int)(y))
 	if *(*int)(x) == *(*int)(y) {
 		z = est.TrueValuePtr
 	}
-- 
2.43.0


From 7b44e93dc47ef3fe33b4755ad8f78f0839895c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 02/66] fix: select the binary operator by the unified operand
 type

Operands of different types are converted to a common type, but the operator
and the result variable were still chosen by the type of the left operand.
---
 binary.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index bf02779..e670e02 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -27,7 +28,16 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	x.Unify = unify.X
 	y.Unify = unify.Y
 
-	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
+	if unify.RType != nil && !isPointer(x.Type) && !isPointer(y.Type) { // both operands are computed as the unified type
+		x.Type = unify.RType
+		y.Type = unify.RType
+	}
+
+	resultType := notNilType(unify.RType, types.NormalizeType(actual.Type()))
+	if isComparison(actual.Token) {
+		resultType = reflect.TypeOf(true)
+	}
+
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
@@ -42,6 +52,18 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+func isPointer(rType reflect.Type) bool {
+	return rType != nil && rType.Kind() == reflect.Ptr
+}
+
+func isComparison(token ast.Token) bool {
+	switch token {
+	case ast.EQ, ast.NEQ, ast.GTR, ast.GTE, ast.LSS, ast.LEQ:
+		return true
+	}
+	return false
+}
+
 func notNilType(types ...reflect.Type) reflect.Type {
 	for _, rType := range types {
 		if rType != nil {
-- 
2.43.0


From 123049670e7329c6f51f707cf98ef450438b40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 03/66] fix: assign bool and float32 values instead of the
 destination to itself

---
 est/stmt/assign/assign.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 21bf83d..27617ec 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -143,7 +143,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(destPtr)
+				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -152,7 +152,7 @@ func (a *assign) assignValue() est.Compute {
 				srcPtr := a.y.Exec(state)
 
 				if srcPtr != nil {
-					*(**float32)(destPtr) = *(**float32)(destPtr)
+					*(**float32)(destPtr) = *(**float32)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -162,7 +162,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(destPtr)
+				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -170,7 +170,7 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 				if srcPtr != nil {
-					*(**bool)(destPtr) = *(**bool)(destPtr)
+					*(**bool)(destPtr) = *(**bool)(srcPtr)
 				}
 				return srcPtr
 			}
-- 
2.43.0


From 90f819b8b6bd4ece20d19b7c4ea63596a97840d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 04/66] fix: convert literals and computed values assigned to a
 variable of another type

---
 est/stmt/assign/bool.go   | 4 ++--
 est/stmt/assign/float.go  | 4 ++--
 est/stmt/assign/int.go    | 4 ++--
 est/stmt/assign/string.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 65fe8a9..2a9049b 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Comp(state))
+	*(*bool)(ret) = *(*bool)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignBoolLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(*a.y.LiteralPtr)
+	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
 	return ret
 }
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 837993c..0d819e7 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Comp(state))
+	*(*float64)(ret) = *(*float64)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignFloatLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(*a.y.LiteralPtr)
+	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
 	return ret
 }
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index cb596cf..d7dc4b1 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -19,14 +19,14 @@ func (a *assign) assignAsInt() est.Compute {
 
 func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(*a.y.LiteralPtr)
+	*(*int)(ret) = *(*int)(a.y.Pointer(state))
 
 	return ret
 }
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Comp(state))
+	*(*int)(ret) = *(*int)(a.y.Exec(state))
 	return ret
 }
 
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 0c9ce60..5f053f2 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Comp(state))
+	*(*string)(ret) = *(*string)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignStringLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(*a.y.LiteralPtr)
+	*(*string)(ret) = *(*string)(a.y.Pointer(state))
 	return ret
 }
-- 
2.43.0


From 9d73c713e074bf9d83e90e88ecc34c88be2b5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 05/66] fix: group binary expressions by operator precedence
 and parentheses

---
 ast/expr/binary.go | 59 ++++++++++++++++++++++++++++++++++++++++++++++
 binary.go          |  2 ++
 parser/expr.go     | 16 ++++---------
 parser/operand.go  | 44 ++--------------------------------
 parser/token.go    |  4 ++++
 5 files changed, 71 insertions(+), 54 deletions(-)

diff --git a/ast/expr/binary.go b/ast/expr/binary.go
index 3956e6f..8a7920a 100644
--- a/ast/expr/binary.go
+++ b/ast/expr/binary.go
@@ -10,6 +10,8 @@ type Binary struct {
 	X     ast2.Expression //left operand
 	Token ast2.Token
 	Y     ast2.Expression //left operand
+
+	Enclosed bool //true if expression was surrounded by parentheses
 }
 
 func (b *Binary) Type() reflect.Type {
@@ -24,6 +26,63 @@ func (b *Binary) Type() reflect.Type {
 	return b.Y.Type()
 }
 
+//Regroup returns an equivalent expression tree with operands grouped by the operator precedence,
+//operators with the same precedence are left associative
+func (b *Binary) Regroup() *Binary {
+	var operands []ast2.Expression
+	var tokens []ast2.Token
+	b.flatten(&operands, &tokens)
+
+	for level := maxPrecedence; level > 0; level-- {
+		count := 0 //number of operators left for the lower levels
+		for i, token := range tokens {
+			if precedence(token) == level {
+				operands[count] = &Binary{X: operands[count], Token: token, Y: operands[i+1], Enclosed: true}
+				continue
+			}
+			tokens[count] = token
+			count++
+			operands[count] = operands[i+1]
+		}
+		tokens = tokens[:count]
+		operands = operands[:count+1]
+	}
+
+	return operands[0].(*Binary)
+}
+
+func (b *Binary) flatten(operands *[]ast2.Expression, tokens *[]ast2.Token) {
+	if x, ok := b.X.(*Binary); ok && !x.Enclosed {
+		x.flatten(operands, tokens)
+	} else {
+		*operands = append(*operands, b.X)
+	}
+
+	*tokens = append(*tokens, b.Token)
+
+	if y, ok := b.Y.(*Binary); ok && !y.Enclosed {
+		y.flatten(operands, tokens)
+	} else {
+		*operands = append(*operands, b.Y)
+	}
+}
+
+const maxPrecedence = 5
+
+func precedence(token ast2.Token) int {
+	switch token {
+	case ast2.MUL, ast2.QUO:
+		return maxPrecedence
+	case ast2.ADD, ast2.SUB:
+		return 4
+	case ast2.EQ, ast2.NEQ, ast2.GTR, ast2.GTE, ast2.LSS, ast2.LEQ:
+		return 3
+	case ast2.AND:
+		return 2
+	}
+	return 1
+}
+
 //BinaryExpression creates new *Binary
 func BinaryExpression(left ast2.Expression, token ast2.Token, right ast2.Expression) *Binary {
 	return &Binary{
diff --git a/binary.go b/binary.go
index e670e02..a8a1e94 100644
--- a/binary.go
+++ b/binary.go
@@ -10,6 +10,8 @@ import (
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
+	actual = actual.Regroup()
+
 	x, err := p.compileExpr(actual.X)
 	if err != nil {
 		return nil, err
diff --git a/parser/expr.go b/parser/expr.go
index db55394..9a2e1ea 100644
--- a/parser/expr.go
+++ b/parser/expr.go
@@ -14,28 +14,20 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 	case parenthesesToken:
 		expressionValue := matched.Text(cursor)
 
-		matched = cursor.MatchAfterOptional(WhiteSpace, Negation)
-		shouldNegate := matched.Code == negationToken
-
 		expressionCursor := parsly.NewCursor("", []byte(expressionValue[1:len(expressionValue)-1]), 0)
 		expression, err := matchEquationExpression(expressionCursor)
 		if err != nil {
 			return nil, err
 		}
+		if binary, ok := expression.(*expr.Binary); ok {
+			binary.Enclosed = true
+		}
 		err = addEquationIfNeeded(cursor, &expression)
 		if err != nil {
 			return nil, err
 		}
 
-		var result ast2.Expression = &expr.Parentheses{P: expression}
-		if shouldNegate {
-			result = &expr.Unary{
-				Token: ast2.NEG,
-				X:     result,
-			}
-		}
-
-		return result, nil
+		return &expr.Parentheses{P: expression}, nil
 	default:
 		_, expression, err := matchOperand(cursor, dataTypeMatchers...)
 		if err != nil {
diff --git a/parser/operand.go b/parser/operand.go
index 495746a..1c54196 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -27,21 +27,13 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 	case parenthesesToken:
 		text := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(text[1:len(text)-1]), 0)
-		token, expr, err := matchOperand(newCursor, candidates...)
+		matcher, expression, err = matchOperand(newCursor, candidates...)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		expr = &aexpr.Parentheses{P: expr}
+		expression = &aexpr.Parentheses{P: expression}
 
-		if hasNegation {
-			expr = &aexpr.Unary{
-				Token: ast2.NEG,
-				X:     expr,
-			}
-		}
-
-		return token, expr, nil
 	case stringToken:
 		value := matched.Text(cursor)
 		matcher = String
@@ -132,17 +124,6 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		if err != nil {
 			return err
 		}
-		hasPrecedence := isPrecedenceToken(token)
-
-		if hasPrecedence {
-			y, ok := rightExpression.(*aexpr.Binary)
-			if ok && !isPrecedenceToken(y.Token) {
-				expression = adjustPrecedence(expression, token, y)
-				continue
-			}
-
-		}
-
 		*expression = &aexpr.Binary{
 			X:     *expression,
 			Token: token,
@@ -150,24 +131,3 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		}
 	}
 }
-
-func adjustPrecedence(expression *ast2.Expression, token ast2.Token, y *aexpr.Binary) *ast2.Expression {
-	p := &aexpr.Parentheses{}
-	p.P = &aexpr.Binary{
-		X:     *expression,
-		Token: token,
-		Y:     y.X,
-	}
-
-	*expression = &aexpr.Binary{
-		X:     p,
-		Token: y.Token,
-		Y:     y.Y,
-	}
-	return expression
-}
-
-func isPrecedenceToken(token ast2.Token) bool {
-	hasPrecedence := token == ast2.MUL || token == ast2.QUO
-	return hasPrecedence
-}
diff --git a/parser/token.go b/parser/token.go
index dbd006d..a389085 100644
--- a/parser/token.go
+++ b/parser/token.go
@@ -7,6 +7,10 @@ import (
 )
 
 func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, matched *parsly.TokenMatch) (ast2.Token, ast2.Expression) {
+	if binary, ok := rightOperand.(*expr.Binary); ok {
+		binary.Enclosed = true
+	}
+
 	switch matched.Code {
 	case mulEqualToken:
 		token = ast2.ASSIGN
-- 
2.43.0


From 62b91e3bd85dac66f50cbf8eefd92b09f694c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 06/66] fix: match multi character loop operators as a whole

---
 parser/lex.go   | 12 ++++++------
 parser/range.go |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 687099c..21fef88 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -121,16 +121,16 @@ var Boolean = parsly.NewToken(booleanToken, "Boolean", matcher.NewFragments([]by
 var Number = parsly.NewToken(numberToken, "Number", matcher.NewNumber())
 
 var Add = parsly.NewToken(addToken, "Add", matcher.NewByte('+'))
-var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewBytes([]byte("+=")))
+var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewFragment("+="))
 var Sub = parsly.NewToken(subToken, "Subtract", matcher.NewByte('-'))
-var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewBytes([]byte("-=")))
+var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewFragment("-="))
 var Multiply = parsly.NewToken(mulToken, "Multiply", matcher.NewByte('*'))
-var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewBytes([]byte("*=")))
+var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewFragment("*="))
 var Quo = parsly.NewToken(quoToken, "Quo", matcher.NewByte('/'))
-var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewBytes([]byte("/=")))
+var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("/="))
 
-var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewBytes([]byte("--")))
-var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewBytes([]byte("++")))
+var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
+var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
 var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
diff --git a/parser/range.go b/parser/range.go
index 715646c..305d064 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -74,7 +74,7 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 		return nil, err
 	}
 
-	candidates := []*parsly.Token{Increment, Decrement, AddEqual, Add, SubEqual, Sub, MultiplyEqual, Multiply, QuoEqual, Quo}
+	candidates := []*parsly.Token{Increment, Decrement, AddEqual, SubEqual, MultiplyEqual, QuoEqual, Assign}
 	matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
 
 	switch matched.Code {
@@ -96,13 +96,14 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 		}, nil
 	}
 
+	operator := *matched
 	token := matchToken(matched)
-	_, rightOperand, err := matchOperand(cursor)
+	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
 
-	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matched)
+	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, &operator)
 
 	return &stmt.Statement{
 		X:  variable,
-- 
2.43.0


From 39426d8d5aa530671959ac7843548995ac328552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 07/66] fix: make HasPrefix test the prefix

---
 functions/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/functions/strings.go b/functions/strings.go
index 72640ff..b2d3e94 100644
--- a/functions/strings.go
+++ b/functions/strings.go
@@ -21,8 +21,8 @@ func (s Strings) HasSuffix(val, suffix string) bool {
 	return strings.HasSuffix(val, suffix)
 }
 
-func (s Strings) HasPrefix(val, suffix string) bool {
-	return strings.HasSuffix(val, suffix)
+func (s Strings) HasPrefix(val, prefix string) bool {
+	return strings.HasPrefix(val, prefix)
 }
 
 func (s Strings) Index(val, substr string) int {
-- 
2.43.0


From f4c019c573a57d1a024a50cbe6a8cc6df9b6e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 08/66] fix: grow an empty buffer when a byte is appended

---
 est/buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/est/buffer.go b/est/buffer.go
index 94399da..c650a00 100644
--- a/est/buffer.go
+++ b/est/buffer.go
@@ -14,10 +14,7 @@ type Buffer struct {
 }
 
 func (b *Buffer) AppendByte(bs byte) {
-	if b.index+1 >= len(b.buf) {
-		newBuffer := make([]byte, len(b.buf)+b.poolSize)
-		b.buf = append(b.buf, newBuffer...)
-	}
+	b.growIfNeeded(1)
 	b.buf[b.index] = bs
 	b.index++
 }
-- 
2.43.0


From a62cab17bd83fdee5659316b141020a062c75789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 09/66] fix: keep an error message with formatting verbs
 unchanged

---
 functions/errors.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions/errors.go b/functions/errors.go
index b2a89c2..f23948e 100644
--- a/functions/errors.go
+++ b/functions/errors.go
@@ -1,6 +1,7 @@
 package functions
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 )
@@ -61,11 +62,11 @@ func (e Errors) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{})
 }
 
 func (e Errors) Raise(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) RegisterError(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) AssertFloat(value interface{}) (bool, error) {
@@ -109,5 +110,5 @@ func (e Errors) AssertWithMessage(isValid bool, message string) (bool, error) {
 		return true, nil
 	}
 
-	return false, fmt.Errorf(message)
+	return false, errors.New(message)
 }
-- 
2.43.0


From a7ac06843f7c41b50dbc6712caa07ba268250c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 10/66] fix: complete pointer comparisons of uint and float
 values

---
 est/expr/ptr.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index ddfc9e2..81b388c 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -70,7 +70,7 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 		case ast.GTE:
 			return compareUintGreaterOrEqual(binary)
 		case ast.LSS:
-			return compareUint8Less(binary)
+			return compareUintLess(binary)
 		case ast.LEQ:
 			return compareUintLessOrEqual(binary)
 		case ast.NEQ:
@@ -163,6 +163,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat32PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat32PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat32PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float32", token)
 		}
@@ -179,6 +181,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat64PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat64PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat64PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float64", token)
 		}
@@ -979,6 +983,31 @@ func compareInt32Less(binary *binaryExpr) (est.Compute, error) {
 	}, nil
 }
 
+func compareUintLess(binary *binaryExpr) (est.Compute, error) {
+	return func(state *est.State) unsafe.Pointer {
+		xPtr := binary.x.Exec(state)
+		yPtr := binary.y.Exec(state)
+
+		if yPtr == nil && xPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if xPtr != nil && yPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if yPtr != nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
+		if xunsafe.AsUint(xPtr) < xunsafe.AsUint(yPtr) {
+			return est.TrueValuePtr
+		}
+
+		return est.FalseValuePtr
+	}, nil
+}
+
 func compareUint8Less(binary *binaryExpr) (est.Compute, error) {
 	return func(state *est.State) unsafe.Pointer {
 		xPtr := binary.x.Exec(state)
-- 
2.43.0


From c17f3197692a9c3c1759975fd87d049d21b0a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 11/66] fix: compare values of pointer operands instead of the
 pointers

---
 binary.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index a8a1e94..7298c29 100644
--- a/binary.go
+++ b/binary.go
@@ -5,8 +5,10 @@ import (
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
+	"github.com/viant/xunsafe"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
+	"unsafe"
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
@@ -30,9 +32,14 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	x.Unify = unify.X
 	y.Unify = unify.Y
 
-	if unify.RType != nil && !isPointer(x.Type) && !isPointer(y.Type) { // both operands are computed as the unified type
+	if isPointer(x.Type) && x.Type == y.Type { // operands are compared by the values they point to
+		x.Unify = dereference
+		y.Unify = dereference
+	} else if unify.RType != nil && !isPointer(x.Type) && !isPointer(y.Type) { // both operands are computed as the unified type
 		x.Type = unify.RType
 		y.Type = unify.RType
+	} else if unify.RType != nil && isComparison(actual.Token) { // operand that is nil pointer has to be detected
+		x.Type = reflect.PtrTo(unify.RType)
 	}
 
 	resultType := notNilType(unify.RType, types.NormalizeType(actual.Type()))
@@ -54,6 +61,10 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+func dereference(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+	return xunsafe.DerefPointer(pointer), nil
+}
+
 func isPointer(rType reflect.Type) bool {
 	return rType != nil && rType.Kind() == reflect.Ptr
 }
-- 
2.43.0


From 3a19f148be041697161a96d95ab474be46aeef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 12/66] fix: treat a nil pointer as equal to a nil pointer only

---
 est/expr/ptr.go | 84 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 74 insertions(+), 10 deletions(-)

diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index 81b388c..e0ae4c2 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -1311,6 +1311,10 @@ func compareBoolNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if xPtr == nil && yPtr == nil {
+			return est.FalseValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.TrueValuePtr
 		}
@@ -1331,6 +1335,10 @@ func compareBoolEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if xPtr == nil && yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1351,10 +1359,14 @@ func compareIntNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xInt := xunsafe.AsInt(xPtr)
 		yInt := xunsafe.AsInt(yPtr)
 
@@ -1371,10 +1383,14 @@ func compareUintNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xUint := xunsafe.AsUint(xPtr)
 		yUint := xunsafe.AsUint(yPtr)
 
@@ -1391,10 +1407,14 @@ func compareUint8NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xUint8 := xunsafe.AsUint8(xPtr)
 		yUint8 := xunsafe.AsUint8(yPtr)
 
@@ -1411,10 +1431,14 @@ func compareInt8NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xInt8 := xunsafe.AsInt8(xPtr)
 		yInt8 := xunsafe.AsInt8(yPtr)
 
@@ -1431,10 +1455,14 @@ func compareInt16NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xInt16 := xunsafe.AsInt16(xPtr)
 		yInt16 := xunsafe.AsInt16(yPtr)
 
@@ -1451,10 +1479,14 @@ func compareUint16NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xUint16 := xunsafe.AsUint16(xPtr)
 		yUint16 := xunsafe.AsUint16(yPtr)
 
@@ -1471,10 +1503,14 @@ func compareInt32NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xInt32 := xunsafe.AsInt32(xPtr)
 		yInt32 := xunsafe.AsInt32(yPtr)
 
@@ -1491,10 +1527,14 @@ func compareUint32NotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xUint32 := xunsafe.AsUint32(xPtr)
 		yUint32 := xunsafe.AsUint32(yPtr)
 
@@ -1611,6 +1651,10 @@ func compareIntPtrEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if xPtr == nil && yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1631,6 +1675,10 @@ func compareUintPtrEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if xPtr == nil && yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1651,6 +1699,10 @@ func compareFloat32PtrEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if xPtr == nil && yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1671,6 +1723,10 @@ func compareFloat64PtrEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
+		if xPtr == nil && yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		if xPtr == nil || yPtr == nil {
 			return est.FalseValuePtr
 		}
@@ -1691,10 +1747,14 @@ func compareFloat32PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xVal := xunsafe.AsFloat32(xPtr)
 		yVal := xunsafe.AsFloat32(yPtr)
 
@@ -1711,10 +1771,14 @@ func compareFloat64PtrNotEqual(binary *binaryExpr) (est.Compute, error) {
 		xPtr := binary.x.Exec(state)
 		yPtr := binary.y.Exec(state)
 
-		if xPtr == nil || yPtr == nil {
+		if xPtr == nil && yPtr == nil {
 			return est.FalseValuePtr
 		}
 
+		if xPtr == nil || yPtr == nil {
+			return est.TrueValuePtr
+		}
+
 		xVal := xunsafe.AsFloat64(xPtr)
 		yVal := xunsafe.AsFloat64(yPtr)
 
-- 
2.43.0


From 1d9e45ecae2aeceb2667b746885e694b2a959b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 13/66] fix: keep the text before a comment

---
 parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 95a0464..3d74188 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -29,16 +29,16 @@ outer:
 			break
 		}
 
-		if cursor.Input[cursor.Pos] == '#' {
-			cursor.MatchOne(NewLine)
-			continue
-		}
-
 		err := appendStatementIfNeeded(text, builder)
 		if err != nil {
 			return nil, cursorErr(cursor, err)
 		}
 
+		if cursor.Input[cursor.Pos-1] == '#' && cursor.Input[cursor.Pos] == '#' {
+			cursor.MatchOne(NewLine)
+			continue
+		}
+
 		lastPosition := cursor.Pos - 1
 		switch cursor.Input[cursor.Pos-1] {
 		case '$':
-- 
2.43.0


From d53dbcd3e2c4ea480f27a3cb0e782315b33fd3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 14/66] fix: parse a function argument of a single character

---
 parser/select.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index acc1435..3f9a535 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -174,7 +174,8 @@ func parseIdentity(cursor *parsly.Cursor) (*expr.Select, error) {
 func matchFunctionCall(cursor *parsly.Cursor) (*expr.Call, error) {
 	expressions := make([]ast.Expression, 0)
 
-	for cursor.Pos < cursor.InputSize-1 {
+	cursor.MatchOne(WhiteSpace)
+	for cursor.Pos < cursor.InputSize {
 		argumentCursor := extractArgument(cursor)
 		_, expression, err := matchOperand(argumentCursor, String, Boolean, Number)
 		if err != nil {
-- 
2.43.0


From aea09efeac3fcd30b4b3d1f27316c8d353c47d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 15/66] fix: print an undefined quiet reference as it was
 written

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3d74188..ce22318 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -50,6 +50,7 @@ outer:
 				}
 				continue outer
 			}
+			statement.FullName = string(cursor.Input[lastPosition:cursor.Pos])
 			builder.appendStatement(statement)
 
 		case '#':
-- 
2.43.0


From 9edc10caec330892c809d9f674b16a5499b9d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 16/66] fix: do not escape an undefined reference

---
 est/stmt/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index edd1564..1610f26 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -77,7 +77,7 @@ func (a *directAppender) newAppendFloatIndirect() est.Compute {
 func (a *directAppender) appendSelectorName() est.Compute {
 	asPtr := unsafe.Pointer(&a.x.Sel.Placeholder)
 	return func(state *est.State) unsafe.Pointer {
-		state.Buffer.AppendString(a.x.Sel.Placeholder)
+		state.Buffer.AppendStringWithoutEscaping(a.x.Sel.Placeholder)
 		return asPtr
 	}
 }
-- 
2.43.0


From 00719c4135fd495b934061138ae985164f5a7eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 17/66] fix: create selectors for every field that is not
 nested in a field of its own type

---
 cyclic.go  | 78 +++++++-----------------------------------------------
 planner.go | 16 +++++------
 2 files changed, 15 insertions(+), 79 deletions(-)

diff --git a/cyclic.go b/cyclic.go
index a4c1480..0918ce5 100644
--- a/cyclic.go
+++ b/cyclic.go
@@ -6,90 +6,30 @@ import (
 )
 
 type (
+	//CycleDetector represents a field on the path from a variable, it detects fields nested in a field of the same type
 	CycleDetector struct {
 		rType          reflect.Type
-		allTypes       map[reflect.Type]*MultiCycleDetector
 		parent         *CycleDetector
 		parentSelector *op.Selector
-		name           string
-	}
-
-	MultiCycleDetector struct {
-		index    map[reflect.Type]int
-		children []*CycleDetector
 	}
 )
 
+//NewCycleDetector creates a detector for a variable of given type
 func NewCycleDetector(rType reflect.Type) *CycleDetector {
-	return newCycleDetector(nil, nil, rType, nil)
-}
-
-func newCycleDetector(parent *CycleDetector, state map[reflect.Type]*MultiCycleDetector, rType reflect.Type, parentSelector *op.Selector) *CycleDetector {
-	if state == nil {
-		state = map[reflect.Type]*MultiCycleDetector{}
-	}
-
-	rType, _ = elemIfNeeded(rType)
-	return &CycleDetector{
-		allTypes:       state,
-		parent:         parent,
-		rType:          rType,
-		parentSelector: parentSelector,
-		name:           rType.String(),
-	}
+	return &CycleDetector{rType: rType}
 }
 
+//Child returns a detector for a field nested in c, and whether any field the child is nested in has the same type
 func (c *CycleDetector) Child(rType reflect.Type, parentSelector *op.Selector) (next *CycleDetector, hasCycle bool) {
-	cycle := c.getChildrenCycleHolder(rType)
-	return cycle.Get(c, rType, parentSelector)
-}
-
-func (d *MultiCycleDetector) Get(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (*CycleDetector, bool) {
-	detector, parent := d.getOrCreate(c, rType, parentSelector)
-
-	return detector, parent != nil
-}
-
-func (d *MultiCycleDetector) getOrCreate(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (current *CycleDetector, parent *CycleDetector) {
-	i, ok := d.index[rType]
-	if ok {
-		next := d.children[i]
-		if next.Has(next) {
-			return c, next
-		}
-
-		return next, nil
-	}
-
-	detector := newCycleDetector(c, c.allTypes, rType, parentSelector)
-	d.index[rType] = len(d.children)
-	d.children = append(d.children, detector)
-
-	return detector, nil
-}
-
-func (c *CycleDetector) getChildrenCycleHolder(rType reflect.Type) *MultiCycleDetector {
-	cycle, ok := c.allTypes[rType]
-	if ok {
-		return cycle
-	}
-
-	cycle = &MultiCycleDetector{
-		index: map[reflect.Type]int{},
-	}
-
-	c.allTypes[rType] = cycle
-	return cycle
+	return &CycleDetector{rType: rType, parent: c, parentSelector: parentSelector}, c.Has(rType)
 }
 
-func (c *CycleDetector) Has(parent *CycleDetector) bool {
-	curr := c
-	for curr != nil {
-		if curr.rType == parent.rType && curr.rType != nil {
+//Has returns true if c or a field c is nested in has given type. The variable itself is not taken into account
+func (c *CycleDetector) Has(rType reflect.Type) bool {
+	for curr := c; curr.parent != nil && curr.parent.parent != nil; curr = curr.parent {
+		if curr.rType == rType {
 			return true
 		}
-
-		curr = curr.parent
 	}
 
 	return false
diff --git a/planner.go b/planner.go
index 68b0354..f729144 100644
--- a/planner.go
+++ b/planner.go
@@ -56,7 +56,11 @@ func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldNa
 }
 
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
-	cycleNode, cycleSelector := p.cycle(cycleDetector, field, parent)
+	cycleNode, hasCycle := cycleDetector.Child(field.Type, parent)
+	var cycleSelector *op.Selector
+	if hasCycle {
+		cycleSelector = cycleNode.parentSelector
+	}
 
 	if field.Anonymous {
 		initialOffset += field.Offset
@@ -66,7 +70,7 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	vTag := Parse(field.Tag.Get(velty))
 
 	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, cycleSelector, fieldName)
-	if err != nil || cycleSelector != nil {
+	if err != nil || hasCycle {
 		return err
 	}
 
@@ -93,14 +97,6 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleNode, newParent)
 }
 
-func (p *Planner) cycle(cycleDetector *CycleDetector, field reflect.StructField, parent *op.Selector) (*CycleDetector, *op.Selector) {
-	child, cycle := cycleDetector.Child(field.Type, parent)
-	if cycle {
-		return child, child.parentSelector
-	}
-	return child, nil
-}
-
 func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.StructField, offsetSoFar, initialOffset uintptr, indirect bool, detector *CycleDetector, parent *op.Selector) error {
 	rType, elemed := elemIfNeeded(field.Type)
 	if rType.Kind() == reflect.Struct {
-- 
2.43.0


From 30f3a098ea8a0c1e94149768f080a9d02fd14a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 18/66] fix: write a variable with its own size and accept nil
 values

---
 est/op/func.go      |  2 +-
 est/state.go        | 11 +++++++----
 est/stmt/foreach.go | 10 +++++-----
 est/utils.go        | 21 ++++++++++++++++++++-
 evaluate.go         |  2 +-
 5 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 07bbee3..b553c3c 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -109,7 +109,7 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		state.AddError(err)
 	}
 	if anIface != nil {
-		accumulator.SetValue(state.MemPtr, anIface)
+		est.SetValue(accumulator.Field, state.MemPtr, anIface)
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
diff --git a/est/state.go b/est/state.go
index c86d84e..f984847 100644
--- a/est/state.go
+++ b/est/state.go
@@ -27,12 +27,15 @@ func (s *State) SetValue(k string, v interface{}) error {
 	}
 
 	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
-		xField.SetValue(s.MemPtr, v)
-	default:
-		xField.Set(s.MemPtr, v)
+	case reflect.Int, reflect.Int64, reflect.Float32, reflect.Float64, reflect.Bool, reflect.String:
+		if xField.Type.PkgPath() == "" {
+			xField.Set(s.MemPtr, v)
+			return nil
+		}
 	}
 
+	SetValue(xField, s.MemPtr, v)
+
 	return nil
 }
 
diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index bcd9c1b..5031675 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -24,7 +24,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.Set(state.MemPtr, v)
+		est.SetValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -38,7 +38,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -52,7 +52,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -65,7 +65,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
@@ -79,7 +79,7 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
 		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		est.SetValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
 
diff --git a/est/utils.go b/est/utils.go
index 17e2eb8..46782c8 100644
--- a/est/utils.go
+++ b/est/utils.go
@@ -1,6 +1,10 @@
 package est
 
-import "unsafe"
+import (
+	"github.com/viant/xunsafe"
+	"reflect"
+	"unsafe"
+)
 
 var trueValue = true
 var falseValue = false
@@ -15,3 +19,18 @@ var ZeroIntPtr = unsafe.Pointer(&zeroInt)
 
 var zeroFloat = 0.0
 var ZeroFloatPtr = unsafe.Pointer(&zeroFloat)
+
+//SetValue sets value to the field of the struct pointed by structPtr, it writes only as many bytes as the field has. The nil value sets the zero value of the field
+func SetValue(field *xunsafe.Field, structPtr unsafe.Pointer, value interface{}) {
+	if value == nil {
+		reflect.NewAt(field.Type, field.Pointer(structPtr)).Elem().Set(reflect.Zero(field.Type))
+		return
+	}
+
+	switch field.Kind() {
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Array, reflect.Complex64, reflect.Complex128:
+		reflect.NewAt(field.Type, field.Pointer(structPtr)).Elem().Set(reflect.ValueOf(value))
+	default:
+		field.SetValue(structPtr, value)
+	}
+}
diff --git a/evaluate.go b/evaluate.go
index 9a4882f..20d63ac 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -42,7 +42,7 @@ func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
 	newState := planner.stateProvider()()
 
 	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
-		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
+		est.SetValue(valueAccessor, newState.MemPtr, valueAccessor.Value(state.MemPtr))
 	}
 
 	newState.Buffer = state.Buffer
-- 
2.43.0


From 342c19d0d7cd5dfdcce2100d86b572929a6c2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 19/66] fix: lock the cache of dynamic templates for reads and
 separate planners in it

---
 cache.go    | 23 ++++++++++++++++-------
 evaluate.go |  4 ++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/cache.go b/cache.go
index c4aa426..9e5c7bc 100644
--- a/cache.go
+++ b/cache.go
@@ -8,11 +8,17 @@ import (
 type (
 	cache struct {
 		cacheSize int
-		cache     map[string]int
+		cache     map[cacheKey]int
 		values    []*value
 		locker    sync.Locker
 	}
 
+	//cacheKey identifies a template and the planner it was compiled with, variables the template can use depend on the planner
+	cacheKey struct {
+		parent *Planner
+		name   string
+	}
+
 	value struct {
 		planner *Planner
 		compute est.Compute
@@ -21,14 +27,17 @@ type (
 
 func newCache(cacheSize int) *cache {
 	return &cache{
-		cache:     map[string]int{},
+		cache:     map[cacheKey]int{},
 		locker:    &sync.Mutex{},
 		cacheSize: cacheSize,
 	}
 }
 
-func (c *cache) expression(name string) (*value, bool) {
-	val, ok := c.cache[name]
+func (c *cache) expression(parent *Planner, name string) (*value, bool) {
+	c.locker.Lock()
+	defer c.locker.Unlock()
+
+	val, ok := c.cache[cacheKey{parent: parent, name: name}]
 	if !ok {
 		return nil, false
 	}
@@ -36,7 +45,7 @@ func (c *cache) expression(name string) (*value, bool) {
 	return c.values[val], ok
 }
 
-func (c *cache) put(name string, planner *Planner, compute est.Compute) {
+func (c *cache) put(parent *Planner, name string, planner *Planner, compute est.Compute) {
 	if c.cacheSize == 0 {
 		return
 	}
@@ -49,12 +58,12 @@ func (c *cache) put(name string, planner *Planner, compute est.Compute) {
 		planner: planner,
 		compute: compute,
 	})
-	c.cache[name] = len(c.values) - 1
+	c.cache[cacheKey{parent: parent, name: name}] = len(c.values) - 1
 }
 
 func (c *cache) cleanCacheIfNeeded() {
 	if len(c.cache) > c.cacheSize {
-		c.cache = map[string]int{}
+		c.cache = map[cacheKey]int{}
 		c.values = c.values[:0]
 	}
 }
diff --git a/evaluate.go b/evaluate.go
index 20d63ac..a814feb 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -16,7 +16,7 @@ type evaluator struct {
 
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
-	if cacheValue, ok := e.cache.expression(varValue); ok {
+	if cacheValue, ok := e.cache.expression(e.parent, varValue); ok {
 		newState := e.newState(cacheValue.planner, state)
 		return cacheValue.compute(newState)
 	}
@@ -33,7 +33,7 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	}
 
 	newState := e.newState(evaluatorPlanner, state)
-	e.cache.put(varValue, evaluatorPlanner, exec)
+	e.cache.put(e.parent, varValue, evaluatorPlanner, exec)
 
 	return exec(newState)
 }
-- 
2.43.0


From 6c3da2836e2f55787694df80b3ade64faab7e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 20/66] fix: report errors raised by a dynamic template

---
 evaluate.go | 12 ++++++++++--
 planner.go  | 17 +++++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/evaluate.go b/evaluate.go
index a814feb..18ea9fe 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -18,7 +18,7 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	varValue := *(*string)(e.x.Exec(state))
 	if cacheValue, ok := e.cache.expression(e.parent, varValue); ok {
 		newState := e.newState(cacheValue.planner, state)
-		return cacheValue.compute(newState)
+		return e.exec(cacheValue.compute, newState, state)
 	}
 
 	block, err := parser.Parse([]byte(varValue))
@@ -35,7 +35,15 @@ func (e *evaluator) compute(state *est.State) unsafe.Pointer {
 	newState := e.newState(evaluatorPlanner, state)
 	e.cache.put(e.parent, varValue, evaluatorPlanner, exec)
 
-	return exec(newState)
+	return e.exec(exec, newState, state)
+}
+
+func (e *evaluator) exec(compute est.Compute, newState *est.State, state *est.State) unsafe.Pointer {
+	defer func() {
+		state.Errors = append(state.Errors, newState.Errors...)
+	}()
+
+	return compute(newState)
 }
 
 func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
diff --git a/planner.go b/planner.go
index f729144..ee5ac4b 100644
--- a/planner.go
+++ b/planner.go
@@ -444,14 +444,15 @@ func New(options ...Option) *Planner {
 
 func (p *Planner) New() *Planner {
 	scope := &Planner{
-		bufferSize: p.bufferSize,
-		Control:    p.Control,
-		Type:       p.Type.Snapshot(),
-		selectors:  p.selectors.Snapshot(),
-		constants:  p.constants,
-		Functions:  p.Functions,
-		cache:      p.cache,
-		escapeHTML: p.escapeHTML,
+		bufferSize:   p.bufferSize,
+		Control:      p.Control,
+		Type:         p.Type.Snapshot(),
+		selectors:    p.selectors.Snapshot(),
+		constants:    p.constants,
+		Functions:    p.Functions,
+		cache:        p.cache,
+		escapeHTML:   p.escapeHTML,
+		panicOnError: p.panicOnError,
 	}
 
 	return scope
-- 
2.43.0


From 49c7a69736c741deacb31708fab61359138eae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 21/66] fix: do not share mutable compilation state between
 concurrently compiled dynamic templates

---
 est/op/func.go | 4 ++++
 est/type.go    | 3 ++-
 planner.go     | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index b553c3c..2239032 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -7,6 +7,7 @@ import (
 	"github.com/viant/velty/functions"
 	"github.com/viant/xunsafe"
 	"reflect"
+	"sync"
 	"unsafe"
 )
 
@@ -31,6 +32,7 @@ type (
 		receivers map[string]*funcReceiver
 		functions map[string]*Function
 		ns        map[string]interface{}
+		mux       sync.Mutex
 	}
 
 	funcReceiver struct {
@@ -389,6 +391,8 @@ func (f *Functions) IsFuncNs(ns string) bool {
 }
 
 func (f *Functions) Method(rType reflect.Type, id string, call *expr.Call) (*Func, error) {
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	return f.method(rType, id, call)
 }
 
diff --git a/est/type.go b/est/type.go
index 9137ef1..a815a08 100644
--- a/est/type.go
+++ b/est/type.go
@@ -110,12 +110,13 @@ func (t *Type) Snapshot() *Type {
 		anonymousFields[key] = t.anonymousFields[key]
 	}
 
+	transients := *t.transients
 	return &Type{
 		Type:            t.Type,
 		fieldsIndex:     types,
 		fields:          fields,
 		xFields:         xFields,
-		transients:      t.transients,
+		transients:      &transients,
 		anonymousFields: anonymousFields,
 	}
 }
diff --git a/planner.go b/planner.go
index ee5ac4b..e7f5dad 100644
--- a/planner.go
+++ b/planner.go
@@ -448,7 +448,7 @@ func (p *Planner) New() *Planner {
 		Control:      p.Control,
 		Type:         p.Type.Snapshot(),
 		selectors:    p.selectors.Snapshot(),
-		constants:    p.constants,
+		constants:    newConstants(),
 		Functions:    p.Functions,
 		cache:        p.cache,
 		escapeHTML:   p.escapeHTML,
-- 
2.43.0


From 4ab68f8668c4fe49ab3266d289781a813487416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 22/66] fix: look up methods by the receiver type, not by its
 name

---
 est/op/func.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 2239032..310699c 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -29,7 +29,7 @@ type (
 		kindFunctions []KindFunction
 		funcs         []*Func
 
-		receivers map[string]*funcReceiver
+		receivers map[reflect.Type]*funcReceiver
 		functions map[string]*Function
 		ns        map[string]interface{}
 		mux       sync.Mutex
@@ -283,7 +283,7 @@ func EmptyFunctions() *Functions {
 			index: map[reflect.Kind]int{},
 		},
 		funcs:     make([]*Func, 0),
-		receivers: map[string]*funcReceiver{},
+		receivers: map[reflect.Type]*funcReceiver{},
 		ns:        map[string]interface{}{},
 		functions: map[string]*Function{},
 	}
@@ -440,7 +440,7 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 
 func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.Method) (*Func, error) {
 	f.ensureReceiver(receiverType)
-	receiver, _ := f.receivers[asMapKey(receiverType)]
+	receiver, _ := f.receivers[receiverType]
 	index, ok := receiver.index[id]
 	if ok {
 		return receiver.funcs[index], nil
@@ -883,7 +883,7 @@ func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFu
 }
 
 func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
-	receiver, ok := f.receivers[asMapKey(receiverType)]
+	receiver, ok := f.receivers[receiverType]
 	if ok {
 		return receiver
 	}
@@ -894,14 +894,10 @@ func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
 		rType: receiverType,
 	}
 
-	f.receivers[asMapKey(receiverType)] = receiver
+	f.receivers[receiverType] = receiver
 	return receiver
 }
 
-func asMapKey(receiverType reflect.Type) string {
-	return receiverType.String()
-}
-
 func incorrectArgumentsError(wanted string, got []*Operand) error {
 	return fmt.Errorf("expected to got %v but got %v", wanted, len(got))
 }
-- 
2.43.0


From 3b89d8b8389841672562a441a6dad6959e3e9082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 23/66] fix: find map entries regardless of the integer type of
 the key

---
 est/op/map.go       |   3 +-
 functions/maps.go   |   5 +-
 functions/slices.go |   6 ++-
 keys/normalize.go   | 108 ++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 115 insertions(+), 7 deletions(-)

diff --git a/est/op/map.go b/est/op/map.go
index a39c5b6..6564666 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -22,13 +22,12 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	execInterface := m.indexOperand.ExecInterface(state)
-	anIndex := keys.Normalize(execInterface)
 	mapValue := reflect.ValueOf(aMap)
 	if mapValue.Kind() != reflect.Map {
 		return nil
 	}
 
-	actualValue := mapValue.MapIndex(reflect.ValueOf(anIndex))
+	actualValue := keys.Lookup(mapValue, execInterface)
 	if !actualValue.IsValid() {
 		return nil
 	}
diff --git a/functions/maps.go b/functions/maps.go
index 12f83a0..5fdd7c8 100644
--- a/functions/maps.go
+++ b/functions/maps.go
@@ -27,8 +27,7 @@ func (m Maps) value(aMap interface{}, key interface{}) (reflect.Value, error) {
 		return reflect.Value{}, fmt.Errorf("incorrect arg type, wanted Map, got %T", aMap)
 	}
 
-	index := valueOf.MapIndex(reflect.ValueOf(key))
-	return index, nil
+	return keys.Lookup(valueOf, key), nil
 }
 
 func (m Maps) Get(aMap interface{}, key interface{}) (interface{}, error) {
@@ -103,7 +102,7 @@ func (m Maps) GetString(aMap interface{}, key interface{}) (string, error) {
 var HasKeyFunc = &StaticKindFunc{
 	kind: reflect.Map,
 	handler: func(aMap, aKey interface{}) (bool, error) {
-		return reflect.ValueOf(aMap).MapIndex(reflect.ValueOf(keys.Normalize(aKey))).IsValid(), nil
+		return keys.Lookup(reflect.ValueOf(aMap), aKey).IsValid(), nil
 	},
 	resultType: reflect.TypeOf(true),
 }
diff --git a/functions/slices.go b/functions/slices.go
index 9332897..ae14bd6 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -130,8 +130,10 @@ func (in *indexSliceByFunc) Handler() interface{} {
 				fieldValue = upstreamType.Deref(fieldValue)
 			}
 
-			key := keys.Normalize(fieldValue)
-			fieldValue = xField.Value(xunsafe.AsPointer(key))
+			fieldValue = xField.Value(xunsafe.AsPointer(fieldValue))
+			if key := keys.Normalize(fieldValue); key != nil {
+				fieldValue = key
+			}
 			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
 		}
 		resultMapIface := resultMap.Interface()
diff --git a/keys/normalize.go b/keys/normalize.go
index 6889905..291b603 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -1,5 +1,67 @@
 package keys
 
+import (
+	"math"
+	"reflect"
+)
+
+//Lookup returns map value stored under the key. The key and the keys of the map match regardless of their integer types,
+//the zero reflect.Value is returned if the map does not contain the key
+func Lookup(aMap reflect.Value, key interface{}) reflect.Value {
+	keyType := aMap.Type().Key()
+	normalized := reflect.ValueOf(Normalize(key))
+	if !normalized.IsValid() {
+		return reflect.Value{}
+	}
+
+	if normalized.Type().AssignableTo(keyType) {
+		if value := aMap.MapIndex(normalized); value.IsValid() || keyType.Kind() != reflect.Interface {
+			return value
+		}
+	}
+
+	switch keyType.Kind() {
+	case reflect.Interface:
+		if raw := reflect.ValueOf(key); isInteger(raw.Kind()) && raw.Type().AssignableTo(keyType) {
+			return aMap.MapIndex(raw)
+		}
+	case reflect.String:
+		if normalized.Kind() == reflect.String {
+			return aMap.MapIndex(normalized.Convert(keyType))
+		}
+	default:
+		if !isInteger(keyType.Kind()) || !isInteger(normalized.Kind()) {
+			return reflect.Value{}
+		}
+
+		converted := normalized.Convert(keyType)
+		if isNegative(converted) == isNegative(normalized) && converted.Convert(normalized.Type()).Interface() == normalized.Interface() {
+			return aMap.MapIndex(converted)
+		}
+	}
+
+	return reflect.Value{}
+}
+
+func isNegative(value reflect.Value) bool {
+	switch value.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return value.Int() < 0
+	}
+
+	return false
+}
+
+func isInteger(kind reflect.Kind) bool {
+	switch kind {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return true
+	}
+
+	return false
+}
+
 func Normalize(key interface{}) interface{} {
 	if key == nil {
 		return nil
@@ -30,6 +92,52 @@ func Normalize(key interface{}) interface{} {
 			return nil
 		}
 		return int(*actual)
+	case *int8:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint:
+		if actual == nil {
+			return nil
+		}
+		return Normalize(*actual)
+	case *uint8:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint16:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint32:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint64:
+		if actual == nil {
+			return nil
+		}
+		return Normalize(*actual)
+	case int8:
+		return int(actual)
+	case uint:
+		if actual <= math.MaxInt {
+			return int(actual)
+		}
+	case uint8:
+		return int(actual)
+	case uint16:
+		return int(actual)
+	case uint32:
+		return int(actual)
+	case uint64:
+		if actual <= math.MaxInt {
+			return int(actual)
+		}
 	case int32:
 		return int(actual)
 	case int64:
-- 
2.43.0


From dcf4e93d28037f06a53ff49cc6f705e2be26236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 24/66] fix: do not write to the shared zero value when
 assigning through a nil pointer

---
 est/op/expr.go            | 12 +++++++++++-
 est/op/upstream.go        | 17 +++++++++++++++--
 est/stmt/assign/assign.go |  2 +-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/est/op/expr.go b/est/op/expr.go
index e63d372..dd15dfe 100644
--- a/est/op/expr.go
+++ b/est/op/expr.go
@@ -10,6 +10,9 @@ import (
 type ShouldRefLast bool
 type ShouldDerefLast bool
 
+//Destination represents an option for an operand the value is written to
+type Destination bool
+
 type Expression struct {
 	LiteralPtr *unsafe.Pointer
 	Type       reflect.Type
@@ -21,6 +24,7 @@ type Expression struct {
 func (e *Expression) Operand(control est.Control, options ...interface{}) (*Operand, error) {
 	var shouldDerefLast bool
 	var shouldRefLast bool
+	var destination bool
 
 	for _, option := range options {
 		switch actual := option.(type) {
@@ -28,6 +32,8 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 			shouldDerefLast = bool(actual)
 		case ShouldRefLast:
 			shouldRefLast = bool(actual)
+		case Destination:
+			destination = bool(actual)
 		}
 	}
 
@@ -50,7 +56,11 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 
 	if e.Selector != nil {
 		if e.Selector != nil && e.Selector.Indirect {
-			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
+			if destination {
+				operand.Comp = newUpstream(e.Selector, shouldDerefLast, true)
+			} else {
+				operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
+			}
 		}
 
 		return operand, nil
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 860a218..e56480b 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -9,6 +9,12 @@ import (
 )
 
 func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.State) unsafe.Pointer {
+	return newUpstream(selector, derefLast, false)
+}
+
+//newUpstream creates a function locating the selector value, when any of the selector parents is nil the function returns
+//a pointer to the zero value. The zero value is shared by all readers, a destination receives its own one.
+func newUpstream(selector *Selector, derefLast bool, destination bool) func(state *est.State) unsafe.Pointer {
 	derefLast = derefLast || converter.IsPrimitive(selector.Type)
 	sel := selector.Parent
 	counter := -1
@@ -45,12 +51,19 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 		zeroValuePtr = xunsafe.AsPointer(value)
 	}
 
+	missing := func() unsafe.Pointer {
+		if destination {
+			return xunsafe.AsPointer(reflect.New(selector.Type).Interface())
+		}
+		return zeroValuePtr
+	}
+
 	shouldRefLast := selector.Type.Kind() == reflect.Ptr
 
 	return func(state *est.State) unsafe.Pointer {
 		ptr := state.MemPtr
 		if ptr == nil {
-			return zeroValuePtr
+			return missing()
 		}
 
 		for i := 0; i < parentLen; i++ {
@@ -92,7 +105,7 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 			}
 
 			if ptr == nil {
-				return zeroValuePtr
+				return missing()
 			}
 		}
 
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 27617ec..bff16d4 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -245,7 +245,7 @@ func (a *assign) assignValue() est.Compute {
 
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		x, err := xExpr.Operand(control)
+		x, err := xExpr.Operand(control, op2.Destination(true))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bc2216a5b61d21d26fd4c61660795f1ca93677af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 25/66] fix: copy a value assigned to a pointer instead of
 referencing the storage of another variable

---
 stmt.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stmt.go b/stmt.go
index 7d1acd6..5d3ecfb 100644
--- a/stmt.go
+++ b/stmt.go
@@ -59,11 +59,22 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 	}
 
 	y.Unify = unify.Y
+	if x.Type.Kind() == reflect.Ptr && y.Type.Kind() != reflect.Ptr && unify.Y != nil {
+		y.Unify = unifyCopy(y.Type, unify.Y) //otherwise a pointer would reference the storage of the assigned variable
+	}
 	y.Type = unify.RType
 
 	return assign.Assign(x, y)
 }
 
+func unifyCopy(rType reflect.Type, unify converter.UnifyFn) converter.UnifyFn {
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		value := reflect.New(rType)
+		value.Elem().Set(reflect.NewAt(rType, pointer).Elem())
+		return unify(unsafe.Pointer(value.Pointer()))
+	}
+}
+
 func (p *Planner) compileIf(actual *stmt2.If) (est.New, error) {
 	cond, err := p.compileExpr(actual.Condition)
 	if err != nil {
-- 
2.43.0


From 7b5680d023de7bcfdfebdc23d8a09ed3ef49be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:22 +0000
Subject: [PATCH 26/66] fix: do not write unsigned and named integer variables
 as pointers

---
 est/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/utils.go b/est/utils.go
index 46782c8..514e5be 100644
--- a/est/utils.go
+++ b/est/utils.go
@@ -28,7 +28,7 @@ func SetValue(field *xunsafe.Field, structPtr unsafe.Pointer, value interface{})
 	}
 
 	switch field.Kind() {
-	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Array, reflect.Complex64, reflect.Complex128:
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Array, reflect.Complex64, reflect.Complex128:
 		reflect.NewAt(field.Type, field.Pointer(structPtr)).Elem().Set(reflect.ValueOf(value))
 	default:
 		field.SetValue(structPtr, value)
-- 
2.43.0


From d41dc7769ac762405b2768ca1ae24efb32eaeb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:44 +0000
Subject: [PATCH 27/66] fix: do not store foreach items in a variable of
 another type

---
 est/op/selectors.go | 14 ++++++++++++--
 stmt.go             | 18 +++++++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/est/op/selectors.go b/est/op/selectors.go
index 34b8555..14a9294 100644
--- a/est/op/selectors.go
+++ b/est/op/selectors.go
@@ -2,6 +2,7 @@ package op
 
 import (
 	"fmt"
+	"strings"
 )
 
 type Selectors struct {
@@ -30,6 +31,15 @@ func (s *Selectors) Append(sel *Selector) error {
 	return nil
 }
 
+//Hide removes selector with given id and selectors with given prefix from the index
+func (s *Selectors) Hide(id string, prefix string) {
+	for key := range s.Index {
+		if key == id || strings.HasPrefix(key, prefix) {
+			delete(s.Index, key)
+		}
+	}
+}
+
 func (s *Selectors) Selectors() []*Selector {
 	return s.selectors
 }
@@ -47,8 +57,8 @@ func (s *Selectors) Snapshot() *Selectors {
 	newSelectors := make([]*Selector, len(s.selectors))
 	copy(newSelectors, s.selectors)
 	index := map[string]int{}
-	for i, selector := range newSelectors {
-		index[selector.ID] = i
+	for id, i := range s.Index {
+		index[id] = i
 	}
 
 	return &Selectors{
diff --git a/stmt.go b/stmt.go
index 5d3ecfb..be318b3 100644
--- a/stmt.go
+++ b/stmt.go
@@ -138,7 +138,11 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 
 	itemType := sliceSelector.Type.Elem()
 
-	if err := p.DefineVariable(actual.Item.ID, itemType); err != nil {
+	if actual.Item.X != nil {
+		return nil, fmt.Errorf("unsupported ForEach variable: %v", actual.Item.ID)
+	}
+
+	if err := p.defineItem(actual.Item.ID, itemType); err != nil {
 		return nil, err
 	}
 
@@ -154,6 +158,18 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 	return stmt.ForEachLoop(block, selector, sliceSelector)
 }
 
+//defineItem defines ForEach variable, if there is already a variable with the given name but of another type, the name
+//references new variable since then.
+func (p *Planner) defineItem(name string, itemType reflect.Type) error {
+	if selector, ok := p.selectors.ById(name); ok && selector.Type != itemType {
+		p.selectors.Hide(name, name+fieldSeparator)
+		holder := p.newName()
+		return p.addSelectors("", p.Type.AddField(holder, holder, itemType), name)
+	}
+
+	return p.DefineVariable(name, itemType)
+}
+
 func nop() est.New {
 	return func(control est.Control) (est.Compute, error) {
 		return func(state *est.State) unsafe.Pointer {
-- 
2.43.0


From c1c7fd8f10b794a809d887fe9891cc19dd815d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 28/66] fix: reject a condition following the else branch

---
 parser/builder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/builder.go b/parser/builder.go
index 789241c..09adab2 100644
--- a/parser/builder.go
+++ b/parser/builder.go
@@ -9,19 +9,27 @@ import (
 type Builder struct {
 	buffer []ast2.StatementContainer
 	block  stmt.Block
+	//hasElse holds statements which else branch has been already opened
+	hasElse map[ast2.StatementContainer]bool
 }
 
 func NewBuilder() *Builder {
-	return &Builder{}
+	return &Builder{hasElse: map[ast2.StatementContainer]bool{}}
 }
 
 func (s *Builder) PushStatement(matchToken int, statement ast2.Statement) error {
 	switch matchToken {
 	case elseIfToken, elseToken:
 		lastNode := s.Last()
+		if s.hasElse[lastNode] {
+			return fmt.Errorf("unexpected condition after else")
+		}
 		if err := addIfExpression(lastNode, statement); err != nil {
 			return err
 		}
+		if matchToken == elseToken {
+			s.hasElse[lastNode] = true
+		}
 		return nil
 	case endToken:
 		if err := s.terminateStatement(); err != nil {
-- 
2.43.0


From 8abaac4a721da561759f2399bac9bca8a272e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:32 +0000
Subject: [PATCH 29/66] fix: visit the elements of the slice foreach started
 with

---
 est/stmt/foreach.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 5031675..371fdac 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -18,7 +18,7 @@ type ForEach struct {
 }
 
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := sliceSnapshot(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -32,7 +32,7 @@ func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
+	xPtr := sliceSnapshot(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -46,7 +46,7 @@ func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := sliceSnapshot(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
@@ -60,7 +60,7 @@ func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
 }
 
 func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
+	xPtr := sliceSnapshot(e.X.Exec(state))
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
@@ -86,6 +86,12 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 	return resultPtr
 }
 
+//sliceSnapshot copies a slice header, so the elements are visited regardless of the slice assigned to the variable in the loop body
+func sliceSnapshot(ptr unsafe.Pointer) unsafe.Pointer {
+	aSlice := *(*[]byte)(ptr)
+	return unsafe.Pointer(&aSlice)
+}
+
 func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		aSlice, err := sliceExpr.Operand(control)
-- 
2.43.0


From f77717902186236a4da6963ae874f894248070a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 30/66] fix: pass copies of variables to functions taking
 interfaces

---
 est/op/operand.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/est/op/operand.go b/est/op/operand.go
index f5083d3..b731fbe 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -74,9 +74,19 @@ func (o *Operand) SetType(rType reflect.Type) {
 	}
 }
 
+//ExecInterface returns the operand value, the value does not share the memory with the variable it was read from
 func (o *Operand) ExecInterface(state *est.State) interface{} {
 	valuePtr := o.Exec(state)
-	return o.AsInterface(valuePtr)
+	if o.Value != nil || o.LiteralPtr != nil || valuePtr == nil {
+		return o.AsInterface(valuePtr)
+	}
+
+	switch o.XType.Kind() {
+	case reflect.Interface, reflect.Func:
+		return o.AsInterface(valuePtr)
+	}
+
+	return reflect.NewAt(o.Type, valuePtr).Elem().Interface()
 }
 
 func (o *Operand) ExecReflectValue(state *est.State) reflect.Value {
-- 
2.43.0


From 4b77de6641a5fad2400af55598461412234b1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 31/66] fix: visit map, function and channel elements of a
 slice

---
 est/stmt/foreach.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 371fdac..61a60a4 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -14,16 +14,25 @@ type ForEach struct {
 	Item *op.Operand
 	X    *op.Operand
 
+	isReference bool
 	*xunsafe.Slice
 }
 
+func (e *ForEach) valueAt(slicePtr unsafe.Pointer, index int) interface{} {
+	if e.isReference {
+		return reflect.NewAt(e.Slice.Elem(), e.Slice.PointerAt(slicePtr, uintptr(index))).Elem().Interface()
+	}
+
+	return e.Slice.ValueAt(slicePtr, index)
+}
+
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
 	xPtr := sliceSnapshot(e.X.Pointer(state))
 	l := e.Slice.Len(xPtr)
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
+		v := e.valueAt(xPtr, i)
 		est.SetValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
@@ -64,7 +73,7 @@ func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
 	l := e.Slice.Len(xPtr)
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
+		v := e.valueAt(xPtr, i)
 		est.SetValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
@@ -78,7 +87,7 @@ func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
+		v := e.valueAt(xPtr, i)
 		est.SetValue(e.Item.Sel.Field, state.MemPtr, v)
 		resultPtr = e.Block(state)
 	}
@@ -106,6 +115,11 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 		}
 
 		loop.Slice = xunsafe.NewSlice(aSlice.Type)
+		switch loop.Slice.Elem().Kind() {
+		case reflect.Map, reflect.Func, reflect.Chan:
+			loop.isReference = true
+		}
+
 		loop.X = aSlice
 
 		loop.Item, err = itemExpr.Operand(control)
-- 
2.43.0


From 5681f3b54e4391423e7eb905e55ef822e8c01918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 32/66] fix: return a map element that is a map or a slice

---
 est/op/map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/est/op/map.go b/est/op/map.go
index 6564666..2081ef7 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -39,7 +39,9 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 
 	switch m.elemKind {
 	case reflect.Map, reflect.Slice:
-		return xunsafe.AsPointer(actualValue.Pointer())
+		valuePtr := reflect.New(actualValue.Type())
+		valuePtr.Elem().Set(actualValue)
+		return xunsafe.AsPointer(valuePtr.Interface())
 	default:
 		return xunsafe.AsPointer(iface)
 	}
-- 
2.43.0


From f37daa3b2ad029b7d7b1df65bd4557427259c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 33/66] fix: resolve references of a dynamic template where it
 is evaluated

---
 stmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt.go b/stmt.go
index be318b3..bd47ff8 100644
--- a/stmt.go
+++ b/stmt.go
@@ -194,5 +194,5 @@ func (p *Planner) compileEvaluate(actual *stmt2.Evaluate) (est.New, error) {
 		return nil, err
 	}
 
-	return evaluate(selector, p.cache, p)
+	return evaluate(selector, p.cache, p.New())
 }
-- 
2.43.0


From 147a26d82ffe2c4f5cfb7d92d943e6e1cf35911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:46 +0000
Subject: [PATCH 34/66] fix: index a slice and a map stored in a field

---
 planner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner.go b/planner.go
index e7f5dad..7e107d3 100644
--- a/planner.go
+++ b/planner.go
@@ -245,8 +245,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 
 	switch actual := call.(type) {
 	case *expr.Select:
-		if callSelector, callNext, callErr := p.tryMatchCall(actual.X, resultSelector, actual.ID); callSelector != nil || callErr != nil {
-			return callSelector, callNext, callErr
+		if methodCall, ok := actual.X.(*expr.Call); ok {
+			if callSelector, callNext, callErr := p.tryMatchCall(methodCall, resultSelector, actual.ID); callSelector != nil || callErr != nil {
+				return callSelector, callNext, callErr
+			}
 		}
 
 		_, err = p.fieldByName(parentType, actual, actual.ID)
-- 
2.43.0


From 0d862dc8e840513d495105c145a8d99f89a87b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:46 +0000
Subject: [PATCH 35/66] fix: reject a reference to a field of a value that is
 not a struct

---
 planner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner.go b/planner.go
index 7e107d3..9cfcaac 100644
--- a/planner.go
+++ b/planner.go
@@ -270,6 +270,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 }
 
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
+	if parentType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("not found field %v at %v", actual.ID, parentType.String())
+	}
+
 	field := xunsafe.FieldByName(parentType, actual.ID)
 	if field != nil {
 		if Parse(field.Tag.Get(velty)).Omit {
-- 
2.43.0


From c0717bc3aee23a15be38e478f00103bfbebf010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 36/66] fix: reject an expression with undefined operand

---
 binary.go | 16 ++++++++++++++++
 unary.go  |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/binary.go b/binary.go
index 7298c29..8623070 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"fmt"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
@@ -24,6 +25,10 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if err = determined(x, y); err != nil {
+		return nil, err
+	}
+
 	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
 	if err != nil {
 		return nil, err
@@ -61,6 +66,17 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+//determined returns an error if any of the operands is a reference to undefined variable
+func determined(operands ...*op.Expression) error {
+	for _, operand := range operands {
+		if operand.Type == nil && operand.Selector != nil {
+			return fmt.Errorf("couldn't determine type of the %v", operand.Selector.Name)
+		}
+	}
+
+	return nil
+}
+
 func dereference(pointer unsafe.Pointer) (unsafe.Pointer, error) {
 	return xunsafe.DerefPointer(pointer), nil
 }
diff --git a/unary.go b/unary.go
index 1f67680..96401a1 100644
--- a/unary.go
+++ b/unary.go
@@ -12,6 +12,10 @@ func (p *Planner) compileUnary(actual *aexpr.Unary) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if err = determined(x); err != nil {
+		return nil, err
+	}
+
 	acc := p.accumulator(x.Type)
 
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
-- 
2.43.0


From 1b18543dd0791513be55305a95ab2eba6cf95358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 37/66] fix: reject evaluation of a value that is not a string

---
 stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stmt.go b/stmt.go
index bd47ff8..c5ce662 100644
--- a/stmt.go
+++ b/stmt.go
@@ -194,5 +194,9 @@ func (p *Planner) compileEvaluate(actual *stmt2.Evaluate) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type == nil || selector.Type.Kind() != reflect.String {
+		return nil, fmt.Errorf("unsupported evaluate expression, expected string but had %v", selector.Type)
+	}
+
 	return evaluate(selector, p.cache, p.New())
 }
-- 
2.43.0


From 1bc7b80489aaf59e991dfb159eb50a5ba0dc431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:28 +0000
Subject: [PATCH 38/66] fix: read a slice element only at a valid integer index

---
 est/op/iface.go    | 24 +++++++++++------
 est/op/selector.go | 27 +++++++++++--------
 est/op/slice.go    | 64 +++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 89 insertions(+), 26 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index 2c0bf71..7419437 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -2,25 +2,33 @@ package op
 
 import (
 	"github.com/viant/velty/est"
+	"github.com/viant/velty/keys"
 	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
 
 type Interface struct {
-	aMap     *Map
-	aSlice   *Slice
-	xOperand *Operand
+	aMap         *Map
+	indexOperand *Operand
+	xOperand     *Operand
 }
 
 func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	asInterface := xunsafe.AsInterface(xPtr)
-
-	actualValue := reflect.ValueOf(asInterface)
-	switch actualValue.Type().Kind() {
+	actualValue := reflect.ValueOf(xunsafe.AsInterface(xPtr))
+	switch actualValue.Kind() {
 	case reflect.Map:
 		return i.aMap.Exec(xPtr, state)
+	case reflect.Slice:
+		index, ok := keys.Normalize(i.indexOperand.ExecInterface(state)).(int)
+		if !ok {
+			return nil
+		}
+
+		checkIndex(index, actualValue.Len())
+		item := actualValue.Index(index).Interface()
+		return unsafe.Pointer(&item)
 	default:
-		return i.aSlice.Exec(xPtr, state)
+		return nil
 	}
 }
diff --git a/est/op/selector.go b/est/op/selector.go
index b608116..167e5c9 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -1,8 +1,8 @@
 package op
 
 import (
+	"fmt"
 	"github.com/viant/xunsafe"
-	types "github.com/viant/xunsafe/converter"
 	"reflect"
 	"unsafe"
 )
@@ -114,20 +114,26 @@ func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Op
 }
 
 func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*Slice, error) {
-	toInt, err := types.Unify(indexOperand.Type, intType)
-	if err != nil {
-		return nil, err
+	if parent.Type.Kind() != reflect.Slice {
+		return nil, fmt.Errorf("unsupported index of %v", parent.Type)
+	}
+
+	if !isIndexType(indexOperand.Type) {
+		return nil, fmt.Errorf("unsupported index type %v", indexOperand.Type)
 	}
 
 	return &Slice{
 		SliceOperand: sliceOperand,
 		IndexOperand: indexOperand,
-		ToInter:      toInt.Y,
 		XSlice:       xunsafe.NewSlice(parent.Type),
 	}, nil
 }
 
 func NewMapSelector(id string, placeholder string, mapOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
+	if indexOperand.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of the %v key", parent.Type)
+	}
+
 	return &Selector{
 		Type:        parent.Type.Elem(),
 		ID:          id,
@@ -139,9 +145,8 @@ func NewMapSelector(id string, placeholder string, mapOperand, indexOperand *Ope
 }
 
 func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand *Operand, parent *Selector) (*Selector, error) {
-	aSlice, err := newSlice(xOperand, indexOperand, parent)
-	if err != nil {
-		return nil, err
+	if parent.Type.NumMethod() > 0 || indexOperand.Type == nil {
+		return nil, fmt.Errorf("unsupported index %v of %v", indexOperand.Type, parent.Type)
 	}
 
 	return &Selector{
@@ -151,9 +156,9 @@ func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand
 		Parent:      parent,
 		Placeholder: placeholder,
 		InterfaceExec: &Interface{
-			xOperand: xOperand,
-			aMap:     newMap(xOperand, indexOperand, parent),
-			aSlice:   aSlice,
+			xOperand:     xOperand,
+			aMap:         newMap(xOperand, indexOperand, parent),
+			indexOperand: indexOperand,
 		},
 	}, nil
 }
diff --git a/est/op/slice.go b/est/op/slice.go
index 54ad269..e0e5fa6 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -3,8 +3,9 @@ package op
 import (
 	"fmt"
 	"github.com/viant/velty/est"
+	"github.com/viant/velty/keys"
 	"github.com/viant/xunsafe"
-	"github.com/viant/xunsafe/converter"
+	"reflect"
 	"unsafe"
 )
 
@@ -12,22 +13,71 @@ type Slice struct {
 	XSlice       *xunsafe.Slice
 	IndexOperand *Operand
 	SliceOperand *Operand
-	ToInter      converter.UnifyFn
 }
 
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	sliceLen := s.XSlice.Len(slicePtr)
 
+	index, ok := s.index(state)
+	if !ok {
+		return nil
+	}
+
+	checkIndex(index, sliceLen)
+	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+}
+
+//index returns value of the index operand, false if the index is nil
+func (s *Slice) index(state *est.State) (int, bool) {
+	kind := s.IndexOperand.Type.Kind()
+	if kind == reflect.Interface || kind == reflect.Ptr {
+		index, ok := keys.Normalize(s.IndexOperand.ExecInterface(state)).(int)
+		return index, ok
+	}
+
 	indexPtr := s.IndexOperand.Exec(state)
 	if indexPtr == nil {
-		return nil
+		return 0, false
 	}
 
-	index := *(*int)(indexPtr)
-	if sliceLen <= index {
-		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
+	switch kind {
+	case reflect.Int8:
+		return int(*(*int8)(indexPtr)), true
+	case reflect.Int16:
+		return int(*(*int16)(indexPtr)), true
+	case reflect.Int32:
+		return int(*(*int32)(indexPtr)), true
+	case reflect.Uint8:
+		return int(*(*uint8)(indexPtr)), true
+	case reflect.Uint16:
+		return int(*(*uint16)(indexPtr)), true
+	case reflect.Uint32:
+		return int(*(*uint32)(indexPtr)), true
+	default:
+		return *(*int)(indexPtr), true
 	}
+}
 
-	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+func checkIndex(index, length int) {
+	if index < 0 || length <= index {
+		panic(fmt.Sprintf("index out of range [%v] with length %v", index, length))
+	}
+}
+
+func isIndexType(rType reflect.Type) bool {
+	if rType == nil {
+		return false
+	}
+
+	if rType.Kind() == reflect.Ptr {
+		rType = rType.Elem()
+	}
+
+	switch rType.Kind() {
+	case reflect.Interface, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return true
+	}
 
+	return false
 }
-- 
2.43.0


From 94a71664d18a895d8a132da935b294095ac0975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 39/66] fix: report arguments a function does not accept

---
 est/op/func.go | 97 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 83 insertions(+), 14 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 310699c..3065435 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -167,32 +167,32 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 
 	switch len(operands) {
 	case 0:
-		return caller.Call([]reflect.Value{}), nil
+		return f.call(caller, []reflect.Value{})
 	case 1:
-		return caller.Call([]reflect.Value{
+		return f.call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-		}), nil
+		})
 
 	case 2:
-		return caller.Call([]reflect.Value{
+		return f.call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-		}), nil
+		})
 
 	case 3:
-		return caller.Call([]reflect.Value{
+		return f.call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
 			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-		}), nil
+		})
 
 	case 4:
-		return caller.Call([]reflect.Value{
+		return f.call(caller, []reflect.Value{
 			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
 			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
 			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
 			f.ensureValue(operands[3].ExecInterface(state), operands[3].Type),
-		}), nil
+		})
 
 	default:
 		values := make([]reflect.Value, 0, len(operands))
@@ -205,7 +205,74 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 			values = append(values, f.ensureValue(anInterface, operands[i].Type))
 		}
 
-		return caller.Call(values), nil
+		return f.call(caller, values)
+	}
+}
+
+func (f *Func) call(caller reflect.Value, args []reflect.Value) ([]reflect.Value, error) {
+	argTypes := make([]reflect.Type, len(args))
+	for i := range args {
+		argTypes[i] = args[i].Type()
+	}
+
+	if err := f.checkArguments(caller.Type(), argTypes, assignable); err != nil {
+		return nil, err
+	}
+
+	return caller.Call(args), nil
+}
+
+func (f *Func) checkArguments(funcType reflect.Type, argTypes []reflect.Type, accepts func(arg, param reflect.Type) bool) error {
+	params := funcType.NumIn()
+	if funcType.IsVariadic() {
+		params--
+	}
+
+	if len(argTypes) < params || (len(argTypes) > params && !funcType.IsVariadic()) {
+		return fmt.Errorf("incorrect number of function %v arguments: expected: %v, had: %v", f.Name, params, len(argTypes))
+	}
+
+	for i, argType := range argTypes {
+		var param reflect.Type
+		if i < params {
+			param = funcType.In(i)
+		} else {
+			param = funcType.In(params).Elem()
+		}
+
+		if !accepts(argType, param) {
+			return fmt.Errorf("incorrect function %v argument %v: expected: %v, had: %v", f.Name, i, param, argType)
+		}
+	}
+
+	return nil
+}
+
+func assignable(arg, param reflect.Type) bool {
+	return arg.AssignableTo(param)
+}
+
+//sameMemory returns true if the value of the arg type can be read as the value of the param type
+func sameMemory(arg, param reflect.Type) bool {
+	return arg == param || (arg != nil && arg.Kind() == param.Kind() && arg.ConvertibleTo(param))
+}
+
+//checkOperands checks types of operands before they are read by the function specialised for given signature
+func (f *Func) checkOperands(funcType reflect.Type, function Funeexpression) Funeexpression {
+	return func(operands []*Operand, state *est.State) (interface{}, error) {
+		argTypes := make([]reflect.Type, len(operands))
+		for i, operand := range operands {
+			argTypes[i] = operand.Type
+			if operand.Value != nil {
+				argTypes[i] = reflect.TypeOf(operand.Value)
+			}
+		}
+
+		if err := f.checkArguments(funcType, argTypes, sameMemory); err != nil {
+			return nil, err
+		}
+
+		return function(operands, state)
 	}
 }
 
@@ -301,13 +368,14 @@ func (f *Functions) RegisterFunction(name string, function interface{}) error {
 
 func (f *Functions) NewFunc(name string, function interface{}, resultType reflect.Type) (*Func, error) {
 	if discoveredFn, rType, discovered := f.discover(nil, function); discovered {
-		return &Func{
+		aFunc := &Func{
 			Name:       name,
-			Function:   discoveredFn,
 			ResultType: rType,
 			XType:      xunsafe.NewType(rType),
 			Literal:    xunsafe.AsPointer(function),
-		}, nil
+		}
+		aFunc.Function = aFunc.checkOperands(reflect.TypeOf(function), discoveredFn)
+		return aFunc, nil
 	}
 
 	var fType reflect.Type
@@ -453,7 +521,8 @@ func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.
 	methodSignature := method.Func.Interface()
 	aFunc := &Func{}
 	if funExpr, resultType, ok := f.discover(receiverType, methodSignature); ok {
-		aFunc.Function = funExpr
+		aFunc.Name = id
+		aFunc.Function = aFunc.checkOperands(method.Type, funExpr)
 		aFunc.ResultType = resultType
 	} else {
 		var err error
-- 
2.43.0


From 2e3a66a42aff0014caf46f80025d582ddf5d418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 40/66] fix: reject undefined arguments and assigned values

---
 planner.go | 4 ++++
 stmt.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/planner.go b/planner.go
index 9cfcaac..3bcee9a 100644
--- a/planner.go
+++ b/planner.go
@@ -423,6 +423,10 @@ func (p *Planner) selectorOperands(call *expr.Call, prev *op.Selector) ([]*op.Op
 			return nil, err
 		}
 
+		if err = determined(expression); err != nil {
+			return nil, err
+		}
+
 		operand, err := expression.Operand(*p.Control)
 		if err != nil {
 			return nil, err
diff --git a/stmt.go b/stmt.go
index c5ce662..2051237 100644
--- a/stmt.go
+++ b/stmt.go
@@ -53,6 +53,10 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
+	if err = determined(y); err != nil {
+		return nil, err
+	}
+
 	unify, err := converter.Unify(x.Type, y.Type)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 99a4bb7d3270713ebb6ea52db310e382356f25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:53 +0000
Subject: [PATCH 41/66] fix: report a failed conversion and compute a nil
 pointer as zero value

---
 binary.go         |  4 ++++
 est/op/operand.go | 33 ++++++++++++++++++---------------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/binary.go b/binary.go
index 8623070..8c99476 100644
--- a/binary.go
+++ b/binary.go
@@ -45,6 +45,10 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		y.Type = unify.RType
 	} else if unify.RType != nil && isComparison(actual.Token) { // operand that is nil pointer has to be detected
 		x.Type = reflect.PtrTo(unify.RType)
+		y.Type = x.Type
+	} else if unify.RType != nil && unify.RType.Kind() != reflect.Ptr { // nil pointer is computed as zero value
+		x.Type = unify.RType
+		y.Type = unify.RType
 	}
 
 	resultType := notNilType(unify.RType, types.NormalizeType(actual.Type()))
diff --git a/est/op/operand.go b/est/op/operand.go
index b731fbe..568a046 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -14,18 +14,29 @@ type Operand struct {
 	Comp       est.Compute
 	Type       reflect.Type
 	XType      *xunsafe.Type
-	unify      func(pointer unsafe.Pointer) unsafe.Pointer
+	unify      converter.UnifyFn
 	NamedIFace bool
 	Value      interface{}
 }
 
 func (o *Operand) Pointer(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.pointer(state))
+	return o.unifyPtr(state, o.pointer(state))
 }
 
-func (o *Operand) unifyPtr(pointer unsafe.Pointer) unsafe.Pointer {
-	if pointer != nil && o.unify != nil {
-		pointer = o.unify(pointer)
+//unifyPtr converts the value to the operand type, value that can't be converted is reported and replaced with zero value
+func (o *Operand) unifyPtr(state *est.State, pointer unsafe.Pointer) unsafe.Pointer {
+	if pointer == nil || o.unify == nil {
+		return pointer
+	}
+
+	pointer, err := o.unify(pointer)
+	if err != nil {
+		state.AddError(err)
+		pointer = nil
+	}
+
+	if pointer == nil && o.Type != nil && o.Type.Kind() != reflect.Ptr {
+		return unsafe.Pointer(reflect.New(o.Type).Pointer())
 	}
 	return pointer
 }
@@ -39,7 +50,7 @@ func (o *Operand) pointer(state *est.State) unsafe.Pointer {
 }
 
 func (o *Operand) Exec(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.exec(state))
+	return o.unifyPtr(state, o.exec(state))
 }
 
 func (o *Operand) exec(state *est.State) unsafe.Pointer {
@@ -164,13 +175,5 @@ func (o *Operand) getXType(rType reflect.Type) reflect.Type {
 }
 
 func (o *Operand) SetUnifier(x converter.UnifyFn) {
-	var unify func(pointer unsafe.Pointer) unsafe.Pointer
-	if x != nil {
-		unify = func(pointer unsafe.Pointer) unsafe.Pointer {
-			ptr, _ := x(pointer)
-			return ptr
-		}
-	}
-
-	o.unify = unify
+	o.unify = x
 }
-- 
2.43.0


From b5c14385478eb93a37285cb6c790cdd050ac7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:52 +0000
Subject: [PATCH 42/66] fix: deliver a function result of an interface type

---
 est/op/func.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index 3065435..617278d 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -112,6 +112,9 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 	}
 	if anIface != nil {
 		est.SetValue(accumulator.Field, state.MemPtr, anIface)
+		if accumulator.Type.Kind() == reflect.Interface {
+			return accumulator.Field.Pointer(state.MemPtr)
+		}
 		if f.XType.Type().Kind() == reflect.Map {
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
-- 
2.43.0


From c895198fe7daccaa1ef76220bee4a43b68ef6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 43/66] fix: render a reference followed by a dot that ends a
 sentence

---
 parser/select.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index 3f9a535..3d04fc7 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -107,10 +107,16 @@ func MatchSelector(cursor *parsly.Cursor) (*expr.Select, error) {
 
 func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	candidates := []*parsly.Token{Parentheses, Dot, SquareBrackets}
+	pos := cursor.Pos
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
-		return MatchSelector(cursor)
+		selector, err := MatchSelector(cursor)
+		if err != nil && strings.TrimLeft(string(cursor.Input[pos+1:cursor.Pos]), "!") == "" { // dot not followed by a name is a text
+			cursor.Pos = pos
+			return nil, nil
+		}
+		return selector, err
 	case parenthesesToken:
 		id := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(id[1:len(id)-1]), 0)
-- 
2.43.0


From cba2eca8c7986cfe414a5c8be16b9ca0f4c1cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 44/66] fix: locate fields of embedded structs and pointers
 nested in other fields

---
 planner.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/planner.go b/planner.go
index 3bcee9a..3594c87 100644
--- a/planner.go
+++ b/planner.go
@@ -62,10 +62,6 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 		cycleSelector = cycleNode.parentSelector
 	}
 
-	if field.Anonymous {
-		initialOffset += field.Offset
-	}
-
 	indirect = indirect || field.Type.Kind() == reflect.Ptr || field.Type.Kind() == reflect.Slice
 	vTag := Parse(field.Tag.Get(velty))
 
@@ -75,7 +71,7 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	}
 
 	if !field.Anonymous {
-		offsetSoFar += field.Offset
+		offsetSoFar += initialOffset + field.Offset
 		initialOffset = 0
 
 		if prefix == "" {
@@ -84,6 +80,12 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 			prefix = prefix + fieldName + fieldSeparator
 		}
 	} else {
+		if field.Type.Kind() == reflect.Ptr {
+			initialOffset = 0
+		} else {
+			initialOffset += field.Offset
+		}
+
 		if vTag.Prefix != "" {
 			prefix += vTag.Prefix
 		}
@@ -211,7 +213,7 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 
 		parentType = resultSelector.Type
 		selectorId = resultSelector.ID
-		upstreamSelector = p.copyWithParent(resultSelector, upstreamSelector)
+		upstreamSelector = p.copyWithParent(resultSelector, p.copyEmbedded(resultSelector.Parent, upstreamSelector))
 	}
 
 	return upstreamSelector, nil
@@ -237,6 +239,15 @@ func (p *Planner) copyWithParent(dest, parent *op.Selector) *op.Selector {
 	return &selCopy
 }
 
+//copyEmbedded copies selectors of embedded pointers, a field promoted from an embedded pointer is reached through them
+func (p *Planner) copyEmbedded(selector, parent *op.Selector) *op.Selector {
+	if selector == nil || selector.Field == nil || !selector.Anonymous {
+		return parent
+	}
+
+	return p.copyWithParent(selector, p.copyEmbedded(selector.Parent, parent))
+}
+
 func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector, selectorId string, parentType reflect.Type) (*op.Selector, ast.Expression, error) {
 	selector, next, err := p.tryMatchCall(call, resultSelector, selectorId)
 	if err != nil || selector != nil {
-- 
2.43.0


From 227ed1a06e6193d6932e128b1d22f44c81ef89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 45/66] fix: find a field by the names and prefix it was given
 and reject a field of a slice

---
 planner.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/planner.go b/planner.go
index 3594c87..7ec2087 100644
--- a/planner.go
+++ b/planner.go
@@ -262,19 +262,17 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			}
 		}
 
-		_, err = p.fieldByName(parentType, actual, actual.ID)
-		if err != nil {
-			return nil, nil, err
-		}
-
 		selectorId = selectorId + fieldSeparator + actual.ID
-		var found bool
-		resultSelector, found = p.selectors.ById(selectorId)
-		if !found {
+		fieldSelector, found := p.selectors.ById(selectorId)
+		if !found || parentType.Kind() != reflect.Struct {
+			if _, err = p.fieldByName(parentType, actual, actual.ID); err != nil {
+				return nil, nil, err
+			}
+
 			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 		}
 
-		return resultSelector, actual.X, nil
+		return fieldSelector, actual.X, nil
 	}
 
 	return resultSelector, nil, nil
@@ -304,14 +302,11 @@ func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, sele
 }
 
 func deref(rType reflect.Type) reflect.Type {
-	for {
-		switch rType.Kind() {
-		case reflect.Ptr, reflect.Slice:
-			rType = rType.Elem()
-		default:
-			return rType
-		}
+	if rType.Kind() == reflect.Ptr {
+		return rType.Elem()
 	}
+
+	return rType
 }
 
 func (p *Planner) accumulator(t reflect.Type) *op.Selector {
-- 
2.43.0


From 1828c2419b72bdcd6ca04371cf33045800f79e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 46/66] fix: read a dot as a field access only when a name
 follows it

---
 parser/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/select.go b/parser/select.go
index 3d04fc7..84e2305 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
+	"github.com/viant/velty/parser/matcher"
 	"strconv"
 	"strings"
 )
@@ -111,12 +112,11 @@ func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
-		selector, err := MatchSelector(cursor)
-		if err != nil && strings.TrimLeft(string(cursor.Input[pos+1:cursor.Pos]), "!") == "" { // dot not followed by a name is a text
+		if cursor.Pos >= len(cursor.Input) || !matcher.IsLetter(cursor.Input[cursor.Pos]) { // dot not followed by a name is a text
 			cursor.Pos = pos
 			return nil, nil
 		}
-		return selector, err
+		return MatchSelector(cursor)
 	case parenthesesToken:
 		id := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(id[1:len(id)-1]), 0)
-- 
2.43.0


From 21433c535f750e6cd07165260dc9a296a60ed0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 47/66] fix: dereference an element of a slice of pointers
 before reading its field

---
 est/op/upstream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/est/op/upstream.go b/est/op/upstream.go
index e56480b..b7c694e 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -91,7 +91,10 @@ func newUpstream(selector *Selector, derefLast bool, destination bool) func(stat
 
 				ptr = refIfNeeded(parents[i].Func.CallFunc(parents[i], args, state), shouldRef)
 			} else if parents[i].Slice != nil {
-				ptr = refIfNeeded(parents[i].Slice.Exec(ptr, state), shouldRef)
+				ptr = parents[i].Slice.Exec(ptr, state)
+				if ptr != nil && parents[i].Type.Kind() == reflect.Ptr && i < parentLen-1 && parents[i+1].Func == nil {
+					ptr = xunsafe.DerefPointer(ptr)
+				}
 			} else if parents[i].Map != nil {
 				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef)
 			} else if parents[i].InterfaceExec != nil {
-- 
2.43.0


From cbe838ad5d6c20edd26739d13607afc520142c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 48/66] fix: pass a pointer found in a map as a method receiver

---
 est/op/upstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/est/op/upstream.go b/est/op/upstream.go
index b7c694e..d9abed3 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -96,7 +96,9 @@ func newUpstream(selector *Selector, derefLast bool, destination bool) func(stat
 					ptr = xunsafe.DerefPointer(ptr)
 				}
 			} else if parents[i].Map != nil {
-				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef)
+				ptr = parents[i].Map.Exec(ptr, state)
+				isReceiver := ptr != nil && parents[i].Type.Kind() == reflect.Ptr && i < parentLen-1 && parents[i+1].Func != nil
+				ptr = refIfNeeded(ptr, shouldRef || isReceiver)
 			} else if parents[i].InterfaceExec != nil {
 				ptr = refIfNeeded(parents[i].InterfaceExec.Exec(ptr, state), shouldRef)
 			} else {
-- 
2.43.0


From 0eeb19a8e62de4575857f6e39b53b115b202e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 49/66] fix: visit elements of a slice of structs holding a
 single pointer

---
 est/stmt/foreach.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index 61a60a4..acf4d94 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -101,6 +101,24 @@ func sliceSnapshot(ptr unsafe.Pointer) unsafe.Pointer {
 	return unsafe.Pointer(&aSlice)
 }
 
+//isReference returns true if a value of the type is a single reference, an interface holds it directly
+func isReference(rType reflect.Type) bool {
+	switch rType.Kind() {
+	case reflect.Map, reflect.Func, reflect.Chan:
+		return true
+	case reflect.Struct:
+		return rType.NumField() == 1 && isReferenceOrPtr(rType.Field(0).Type)
+	case reflect.Array:
+		return rType.Len() == 1 && isReferenceOrPtr(rType.Elem())
+	}
+
+	return false
+}
+
+func isReferenceOrPtr(rType reflect.Type) bool {
+	return rType.Kind() == reflect.Ptr || rType.Kind() == reflect.UnsafePointer || isReference(rType)
+}
+
 func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		aSlice, err := sliceExpr.Operand(control)
@@ -115,11 +133,7 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 		}
 
 		loop.Slice = xunsafe.NewSlice(aSlice.Type)
-		switch loop.Slice.Elem().Kind() {
-		case reflect.Map, reflect.Func, reflect.Chan:
-			loop.isReference = true
-		}
-
+		loop.isReference = isReference(loop.Slice.Elem())
 		loop.X = aSlice
 
 		loop.Item, err = itemExpr.Operand(control)
-- 
2.43.0


From 2d33cbef2c6c8d3141e716eb6510d557d764e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 50/66] fix: read, assign and pass function values by the
 address they are stored at

---
 est/op/func.go            | 3 ++-
 est/op/map.go             | 2 +-
 est/op/operand.go         | 6 +++---
 est/stmt/assign/assign.go | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 617278d..297a1a8 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -115,7 +115,8 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		if accumulator.Type.Kind() == reflect.Interface {
 			return accumulator.Field.Pointer(state.MemPtr)
 		}
-		if f.XType.Type().Kind() == reflect.Map {
+		switch f.XType.Type().Kind() {
+		case reflect.Map, reflect.Func, reflect.Chan, reflect.Array:
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
 		return xunsafe.AsPointer(anIface)
diff --git a/est/op/map.go b/est/op/map.go
index 2081ef7..1a7c478 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -38,7 +38,7 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	switch m.elemKind {
-	case reflect.Map, reflect.Slice:
+	case reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Array:
 		valuePtr := reflect.New(actualValue.Type())
 		valuePtr.Elem().Set(actualValue)
 		return xunsafe.AsPointer(valuePtr.Interface())
diff --git a/est/op/operand.go b/est/op/operand.go
index 568a046..365a97b 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -93,7 +93,7 @@ func (o *Operand) ExecInterface(state *est.State) interface{} {
 	}
 
 	switch o.XType.Kind() {
-	case reflect.Interface, reflect.Func:
+	case reflect.Interface:
 		return o.AsInterface(valuePtr)
 	}
 
@@ -139,8 +139,6 @@ func (o *Operand) AsInterface(valuePtr unsafe.Pointer) interface{} {
 			})(valuePtr)
 		}
 		anInterface = xunsafe.AsInterface(valuePtr)
-	case reflect.Func:
-		anInterface = o.XType.Value(valuePtr)
 	default:
 		if o.LiteralPtr != nil {
 			return o.XType.Value(valuePtr)
@@ -157,6 +155,8 @@ func (o *Operand) AsValue(valuePtr unsafe.Pointer) interface{} {
 	switch o.XType.Kind() {
 	case reflect.Interface:
 		anInterface = xunsafe.AsInterface(valuePtr)
+	case reflect.Struct, reflect.Map, reflect.Func, reflect.Chan, reflect.Array:
+		anInterface = o.XType.Interface(valuePtr)
 	default:
 		anInterface = o.XType.Value(valuePtr)
 	}
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index bff16d4..2e5a943 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -213,7 +213,7 @@ func (a *assign) assignValue() est.Compute {
 				return nil
 			}
 
-			a.x.Sel.Field.SetFuncAt(dest, a.y.AsInterface(src))
+			*(*unsafe.Pointer)(dest) = *(*unsafe.Pointer)(src)
 			return dest
 		}
 	}
-- 
2.43.0


From 1fae8b6977076cce741a313b4622b4253cb8911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 51/66] fix: do not read a function namespace as a value

---
 planner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner.go b/planner.go
index 7ec2087..f5b6257 100644
--- a/planner.go
+++ b/planner.go
@@ -196,6 +196,10 @@ func (p *Planner) DefineVariable(name string, v interface{}, names ...string) er
 
 func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 	resultSelector, call, err := p.matchFirstSelector(selector)
+	if err == nil && call == nil && resultSelector != nil && resultSelector.Literal != nil {
+		return nil, nil //a function namespace is not a value
+	}
+
 	if err != nil || call == nil {
 		return resultSelector, err
 	}
-- 
2.43.0


From fbb29078de739123b0e8a785ff3c539564acb9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 52/66] fix: define a variable named like a function namespace

---
 est/op/func.go | 2 +-
 planner.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 297a1a8..e8a70fc 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -1036,7 +1036,7 @@ func (f *Functions) TryDetectResultType(prev *Selector, methodName string, call
 	}
 
 	receiver, ok := f.ns[prev.ID]
-	if !ok {
+	if !ok || prev.Literal == nil { //a variable may have a name of a namespace
 		return nil, nil
 	}
 
diff --git a/planner.go b/planner.go
index f5b6257..9273227 100644
--- a/planner.go
+++ b/planner.go
@@ -169,7 +169,7 @@ func elemIfNeeded(rType reflect.Type) (reflect.Type, bool) {
 // DefineVariable enrich the Type by adding field with given name.
 // val can be either of the reflect.Type or regular type (i.e. Foo)
 func (p *Planner) DefineVariable(name string, v interface{}, names ...string) error {
-	if p.selectorByName(name) != nil {
+	if _, ok := p.selectors.ById(name); ok {
 		return nil
 	}
 
-- 
2.43.0


From cc90926a24c54313f01d55edcceb814a68fc2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 53/66] fix: do not truncate a float key passed by a pointer

---
 keys/normalize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys/normalize.go b/keys/normalize.go
index 291b603..4dcdd82 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -81,12 +81,12 @@ func Normalize(key interface{}) interface{} {
 		if actual == nil {
 			return nil
 		}
-		return int(*actual)
+		return *actual
 	case *float32:
 		if actual == nil {
 			return nil
 		}
-		return int(*actual)
+		return *actual
 	case *int16:
 		if actual == nil {
 			return nil
-- 
2.43.0


From 7f5cedd89a3305800965c28a540ef8701edfd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 54/66] fix: index a slice by promoted fields and report what
 it can not be indexed by

---
 functions/slices.go | 77 ++++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/functions/slices.go b/functions/slices.go
index ae14bd6..8c3c87e 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -5,8 +5,8 @@ import (
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/keys"
 	"github.com/viant/xreflect"
-	"github.com/viant/xunsafe"
 	"reflect"
+	"unsafe"
 )
 
 type Slices struct {
@@ -102,9 +102,7 @@ func (in *indexSliceByFunc) Handler() interface{} {
 			return nil, fmt.Errorf("unsupported IndexBy receiver, got %T", slice)
 		}
 
-		elemType := sliceType.Elem()
-		upstream := in.upstream(elemType)
-		xField, err := in.Field(upstream, elemType, field)
+		index, err := in.fieldIndex(sliceType.Elem(), field)
 		if err != nil {
 			return nil, err
 		}
@@ -119,22 +117,21 @@ func (in *indexSliceByFunc) Handler() interface{} {
 			return resultMap.Interface(), nil
 		}
 
-		xSlice := xunsafe.NewSlice(sliceType)
-		slicePtr := xunsafe.AsPointer(slice)
-
-		sliceLen := xSlice.Len(slicePtr)
-		for i := 0; i < sliceLen; i++ {
-			sliceValueAt := xSlice.ValueAt(slicePtr, i)
-			fieldValue := sliceValueAt
-			for _, upstreamType := range upstream {
-				fieldValue = upstreamType.Deref(fieldValue)
+		sliceValue := reflect.ValueOf(slice)
+		for i := 0; i < sliceValue.Len(); i++ {
+			fieldValue, ok := in.fieldValue(sliceValue.Index(i), index)
+			if !ok {
+				continue //an element without the key
 			}
 
-			fieldValue = xField.Value(xunsafe.AsPointer(fieldValue))
 			if key := keys.Normalize(fieldValue); key != nil {
 				fieldValue = key
 			}
-			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
+
+			if !reflect.TypeOf(fieldValue).Comparable() {
+				return nil, fmt.Errorf("unsupported IndexBy key type %T", fieldValue)
+			}
+			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), sliceValue.Index(i))
 		}
 		resultMapIface := resultMap.Interface()
 		if err != nil {
@@ -153,39 +150,47 @@ func (in *indexSliceByFunc) ResultType(receiver reflect.Type, _ *expr.Call) (ref
 	return reflect.MapOf(xreflect.InterfaceType, receiver.Elem()), nil
 }
 
-func (in *indexSliceByFunc) upstream(sliceType reflect.Type) []*xunsafe.Type {
-	var types []*xunsafe.Type
-	for sliceType.Kind() == reflect.Ptr {
-		sliceType = sliceType.Elem()
-		types = append(types, xunsafe.NewType(sliceType))
-	}
-
-	return types
-}
-
-func (in *indexSliceByFunc) Field(upstream []*xunsafe.Type, elemType reflect.Type, field string) (*xunsafe.Field, error) {
-	var xField *xunsafe.Field
-	if len(upstream) > 0 {
-		xField = xunsafe.FieldByName(upstream[len(upstream)-1].Type(), field)
-	} else {
-		xField = xunsafe.FieldByName(elemType, field)
+func (in *indexSliceByFunc) fieldIndex(elemType reflect.Type, field string) ([]int, error) {
+	for elemType.Kind() == reflect.Ptr {
+		elemType = elemType.Elem()
 	}
 
-	if xField != nil {
-		return xField, nil
+	if elemType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("unsupported IndexBy element type %v", elemType.String())
 	}
 
-	for elemType.Kind() == reflect.Ptr {
-		elemType = elemType.Elem()
+	if structField, ok := elemType.FieldByName(field); ok {
+		return structField.Index, nil
 	}
 
 	numField := elemType.NumField()
 	for i := 0; i < numField; i++ {
 		aField := elemType.Field(i)
 		if FieldChecker(aField, field) {
-			return xunsafe.FieldByIndex(elemType, i), nil
+			return aField.Index, nil
 		}
 	}
 
 	return nil, fmt.Errorf("not found field %v at struct %v", field, elemType.String())
 }
+
+func (in *indexSliceByFunc) fieldValue(value reflect.Value, index []int) (interface{}, bool) {
+	for i := 0; i <= len(index); i++ {
+		for value.Kind() == reflect.Ptr && i < len(index) {
+			if value.IsNil() {
+				return nil, false
+			}
+			value = value.Elem()
+		}
+
+		if i < len(index) {
+			value = value.Field(index[i])
+		}
+	}
+
+	value = reflect.NewAt(value.Type(), unsafe.Pointer(value.UnsafeAddr())).Elem() //the field may be unexported
+	if value.Kind() == reflect.Interface && value.IsNil() {
+		return nil, false
+	}
+	return value.Interface(), true
+}
-- 
2.43.0


From 3f99d50ef8e5b9ca76b52db72237d0cd9286acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 55/66] fix: evaluate a condition that is not a boolean by its
 own value

---
 est/stmt/for.go |  2 +-
 est/stmt/if.go  | 52 +++++++++++++++++++++++++++----------------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/est/stmt/for.go b/est/stmt/for.go
index e9050b4..a633d74 100644
--- a/est/stmt/for.go
+++ b/est/stmt/for.go
@@ -30,7 +30,7 @@ func ForLoop(init, post est.New, condition *op.Expression, block est.Compute) (e
 		forLoop := &For{}
 		var err error
 
-		forLoop.Condition, err = condition.Operand(control)
+		forLoop.Condition, err = conditionOperand(condition, control)
 		if err != nil {
 			return nil, err
 		}
diff --git a/est/stmt/if.go b/est/stmt/if.go
index 893625e..9f2e13c 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	est "github.com/viant/velty/est"
 	op2 "github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe/converter"
 	"reflect"
 	"unsafe"
 )
@@ -71,7 +70,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		rType = condition.Selector.Type
 	}
 
-	if condition.New != nil {
+	if rType == nil && condition.New != nil {
 		rType = reflect.TypeOf(true)
 	}
 
@@ -79,21 +78,11 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		return nil, fmt.Errorf("couldn't determine type of the %v\n", condition.Selector.Name)
 	}
 
-	unify, err := converter.Unify(reflect.TypeOf(true), rType)
-	if err != nil {
-		return nil, err
-	}
-
-	if err != nil || rType.Kind() == reflect.Bool {
-		return anOperand, err
+	if rType.Kind() == reflect.Bool {
+		return anOperand, nil
 	}
 
 	newOperand := &op2.Operand{}
-	if unify.Y != nil {
-		newOperand.SetUnifier(unify.Y)
-		rType = reflect.TypeOf(true)
-	}
-
 	switch rType.Kind() {
 	case reflect.Slice:
 		newOperand.Comp = func(state *est.State) unsafe.Pointer {
@@ -135,24 +124,41 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 			return est.FalseValuePtr
 		}
 
-	case reflect.Ptr:
+	default:
 		newOperand.Comp = func(state *est.State) unsafe.Pointer {
 			anPtr := anOperand.Exec(state)
-			if anPtr != nil {
+			if anPtr != nil && isTrue(reflect.NewAt(rType, anPtr).Elem()) {
 				return est.TrueValuePtr
 			}
 			return est.FalseValuePtr
 		}
+	}
 
-	case reflect.Bool:
-		newOperand.Comp = func(state *est.State) unsafe.Pointer {
-			anPtr := anOperand.Exec(state)
-			return anPtr
+	return newOperand, nil
+}
+
+//isTrue returns true if the value, or the primitive it points to, is neither zero, nil nor an empty slice
+func isTrue(value reflect.Value) bool {
+	switch value.Kind() {
+	case reflect.Interface:
+		return !value.IsNil() && isTrue(value.Elem())
+	case reflect.Ptr:
+		if value.IsNil() {
+			return false
 		}
 
-	default:
-		return nil, fmt.Errorf("unsupported comparable type %v", condition.Type.Kind())
+		switch elem := value.Elem(); elem.Kind() {
+		case reflect.Ptr, reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
+			reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			return isTrue(elem)
+		}
+		return true
+	case reflect.Slice:
+		return value.Len() > 0
+	case reflect.Float32, reflect.Float64:
+		return value.Float() != 0
 	}
 
-	return newOperand, nil
+	return !value.IsZero()
 }
-- 
2.43.0


From 2854d5201784cdc961a88b51641237efea2b9f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 56/66] fix: call a registered function without arguments

---
 est/op/func.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index e8a70fc..a9ba6a2 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -126,10 +126,6 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 }
 
 func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, error) {
-	if len(operands) == 0 {
-		return nil, fmt.Errorf("expected to got min 1 operand but got %v", len(operands))
-	}
-
 	result, err := f.execute(operands, state)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 40ccfaa084e93f0005f894972700954496e8e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 57/66] fix: end a raw block at its terminator regardless of
 quotes and brackets in it

---
 parser/parser.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ce22318..35bdabf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,14 +1,17 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/ast/stmt"
-	"strings"
 )
 
+var rawBlockStart = []byte("[[")
+var rawBlockEnd = []byte("]]#")
+
 func Parse(input []byte) (*stmt.Block, error) {
 	if len(input) == 0 {
 		return &stmt.Block{}, nil
@@ -85,20 +88,19 @@ outer:
 }
 
 func checkIfEscaped(cursor *parsly.Cursor) (*stmt.Append, bool) {
-	lastCursorPos := cursor.Pos
-	matched := cursor.MatchOne(SquareBrackets)
-	if matched.Code == squareBracketsToken {
-		body := matched.Text(cursor)
-		if strings.HasPrefix(body, "[[") && strings.HasSuffix(body, "]]") {
-			matched = cursor.MatchOne(Hash)
-			if matched.Code == hashToken {
-				return stmt.NewAppend(body[2 : len(body)-2]), true
-			}
-		}
+	input := cursor.Input[cursor.Pos:]
+	if !bytes.HasPrefix(input, rawBlockStart) {
+		return nil, false
+	}
+
+	body := input[len(rawBlockStart):]
+	end := bytes.Index(body, rawBlockEnd)
+	if end == -1 {
+		return nil, false
 	}
 
-	cursor.Pos = lastCursorPos
-	return nil, false
+	cursor.Pos += len(rawBlockStart) + end + len(rawBlockEnd)
+	return stmt.NewAppend(string(body[:end])), true
 }
 
 func cursorErr(cursor *parsly.Cursor, err error) error {
-- 
2.43.0


From b20d7297060aeabf17e3ac5e40892514c63fe500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 58/66] fix: render a nil *time.Time found in an interface

---
 est/stmt/select.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index 1610f26..5e9a717 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -96,6 +96,10 @@ func (a *directAppender) newInterfaceAppender() est.Compute {
 		case time.Time:
 			state.Buffer.AppendString(actual.Format(time.RFC3339))
 		case *time.Time:
+			if actual == nil {
+				state.Buffer.AppendString(fmt.Sprint(nil))
+				break
+			}
 			state.Buffer.AppendString(actual.Format(time.RFC3339))
 		case bool:
 			state.Buffer.AppendBool(actual)
-- 
2.43.0


From fcc90a304bf58a6e15a284b6960cb1c192428927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 59/66] fix: deliver a map a function returned as an interface

---
 est/op/func.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index a9ba6a2..9314fe6 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -115,8 +115,13 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		if accumulator.Type.Kind() == reflect.Interface {
 			return accumulator.Field.Pointer(state.MemPtr)
 		}
-		switch f.XType.Type().Kind() {
+		switch accumulator.Type.Kind() {
 		case reflect.Map, reflect.Func, reflect.Chan, reflect.Array:
+			if f.XType.Type().Kind() == reflect.Interface { //the result type was detected while compiling
+				result := reflect.New(accumulator.Type)
+				result.Elem().Set(reflect.ValueOf(anIface))
+				return unsafe.Pointer(result.Pointer())
+			}
 			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
 		}
 		return xunsafe.AsPointer(anIface)
-- 
2.43.0


From 98f073009c084816424d00556fcbf25df13da672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 60/66] fix: report a missing TypeParser while compiling

---
 functions/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/functions/json.go b/functions/json.go
index 1d73814..338859e 100644
--- a/functions/json.go
+++ b/functions/json.go
@@ -26,6 +26,10 @@ func (n *JSON) MethodResultType(methodName string, call *expr.Call) (reflect.Typ
 			return nil, nil
 		}
 
+		if n.parser == nil {
+			return nil, fmt.Errorf("can't unmarshall into %v due to not specified TypeParser", asLiteral.Value)
+		}
+
 		return n.parser(asLiteral.Value)
 	}
 
-- 
2.43.0


From 24946ff7470d868d74b1422a24eb19465bd0e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 61/66] fix: iterate over the result of a call with several
 arguments

---
 parser/lex.go   | 2 +-
 parser/range.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 21fef88..caac54c 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -132,7 +132,7 @@ var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("
 var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
 var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
-var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
+var Coma = parsly.NewToken(comaToken, "Coma", matcher.NewByte(','))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
 var Dot = parsly.NewToken(dotToken, "Dot", matcher.NewByte('.'))
 
diff --git a/parser/range.go b/parser/range.go
index 305d064..745ec42 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -12,7 +12,7 @@ func matchForEach(cursor *parsly.Cursor) (*stmt.ForEach, error) {
 	if err != nil {
 		return nil, err
 	}
-	candidates := []*parsly.Token{ComaTerminator}
+	candidates := []*parsly.Token{Coma}
 	matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
 
 	var index *expr.Select
-- 
2.43.0


From 5f996ac45e7ccafa93f8a8d569f4cc0db69316fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 62/66] fix: store a channel variable itself, not the memory it
 points to

---
 est/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/utils.go b/est/utils.go
index 514e5be..4fda56c 100644
--- a/est/utils.go
+++ b/est/utils.go
@@ -28,7 +28,7 @@ func SetValue(field *xunsafe.Field, structPtr unsafe.Pointer, value interface{})
 	}
 
 	switch field.Kind() {
-	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Array, reflect.Complex64, reflect.Complex128:
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Array, reflect.Complex64, reflect.Complex128, reflect.Chan, reflect.UnsafePointer:
 		reflect.NewAt(field.Type, field.Pointer(structPtr)).Elem().Set(reflect.ValueOf(value))
 	default:
 		field.SetValue(structPtr, value)
-- 
2.43.0


From 403f82bf20b4631cbee5734c60968cbdfacd7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 63/66] fix: keep the text around a reference in a string
 literal

---
 parser/operand.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/parser/operand.go b/parser/operand.go
index 1c54196..829928b 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -68,16 +68,8 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			matcher = String
 			expression = aexpr.StringLiteral("")
 		} else {
-			newCursor := parsly.NewCursor("", []byte(value[:len(value)-1]), 0)
-
-			matcher, expression, err = matchOperand(newCursor, candidates...)
-			if err != nil {
-				expression = aexpr.StringLiteral(value[:len(value)-1])
-			} else {
-				if _, ok := expression.(*aexpr.Select); !ok {
-					expression = aexpr.StringLiteral(value[:len(value)-1])
-				}
-			}
+			matcher = String
+			expression = matchStringLiteral(value[:len(value)-1])
 		}
 
 	}
@@ -96,6 +88,18 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 	return matcher, expression, nil
 }
 
+//matchStringLiteral returns a reference if the text is nothing but the reference, otherwise the text itself
+func matchStringLiteral(text string) ast2.Expression {
+	cursor := parsly.NewCursor("", []byte(text), 0)
+	if cursor.MatchOne(SelectorStart).Code == selectorStartToken {
+		if selector, err := MatchSelector(cursor); err == nil && cursor.Pos == cursor.InputSize {
+			return selector
+		}
+	}
+
+	return aexpr.StringLiteral(text)
+}
+
 func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) error {
 	for {
 		candidates := []*parsly.Token{Add, Sub, Multiply, Quo, NotEqual, Negation, Equal, And, Or, GreaterEqual, Greater, LessEqual, Less, Assign}
-- 
2.43.0


From 643551b983c0e86b71df9992080b3fd309aa6a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 64/66] fix: read numbers with an exponent of E, report numbers
 out of range

---
 ast/expr/literal.go |  2 +-
 literal.go          | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ast/expr/literal.go b/ast/expr/literal.go
index 4f36b5b..90c695c 100644
--- a/ast/expr/literal.go
+++ b/ast/expr/literal.go
@@ -27,7 +27,7 @@ func StringLiteral(value string) *Literal {
 //NumberLiteral creates number literal
 func NumberLiteral(value string) *Literal {
 	numType := reflect.TypeOf(0.0)
-	if !(strings.Contains(value, ".") || strings.Contains(value, "e")) {
+	if !strings.ContainsAny(value, ".eE") {
 		numType = reflect.TypeOf(0)
 	}
 	return &Literal{
diff --git a/literal.go b/literal.go
index c023802..645b290 100644
--- a/literal.go
+++ b/literal.go
@@ -13,14 +13,20 @@ func (p *Planner) literalExpr(literal *expr.Literal) (*op.Expression, error) {
 	expr := &op.Expression{}
 	switch literal.RType.Kind() {
 	case reflect.Int:
-		i, _ := strconv.Atoi(literal.Value)
+		i, err := strconv.Atoi(literal.Value)
+		if err != nil {
+			return nil, err
+		}
 		iPtr := &i
 		p.constants.add(iPtr)
 		ptr := unsafe.Pointer(iPtr)
 		expr.Type = reflect.TypeOf(i)
 		expr.LiteralPtr = &ptr
 	case reflect.Float64:
-		f, _ := strconv.ParseFloat(literal.Value, 64)
+		f, err := strconv.ParseFloat(literal.Value, 64)
+		if err != nil {
+			return nil, err
+		}
 		p.constants.add(&f)
 		expr.Type = reflect.TypeOf(f)
 		ptr := unsafe.Pointer(&f)
-- 
2.43.0


From 3768c985c8a5344d18d73ce61668b8d77810dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 65/66] fix: reject a range of too many elements instead of
 panicking

---
 range.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/range.go b/range.go
index f0d2f54..d002bed 100644
--- a/range.go
+++ b/range.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"fmt"
 	aexpr "github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/est/op"
 	"reflect"
@@ -8,6 +9,18 @@ import (
 	"unsafe"
 )
 
+//maxRangeSize is the number of elements a range can have, all of them are allocated when the template is compiled
+const maxRangeSize = 1 << 27
+
+//rangeSize returns the distance between begin and finish, it may exceed the max int
+func rangeSize(begin, finish int) uint64 {
+	if begin < finish {
+		return uint64(finish) - uint64(begin)
+	}
+
+	return uint64(begin) - uint64(finish)
+}
+
 func (p *Planner) compileRange(actual *aexpr.Range) (*op.Expression, error) {
 	begin, err := strconv.Atoi(actual.X.Value)
 	if err != nil {
@@ -19,6 +32,10 @@ func (p *Planner) compileRange(actual *aexpr.Range) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if size := rangeSize(begin, finish); size > maxRangeSize {
+		return nil, fmt.Errorf("range [%v...%v] is too big, expected up to %v elements", begin, finish, maxRangeSize)
+	}
+
 	var aSlice []int
 	if begin < finish {
 		aSlice = make([]int, finish-begin)
-- 
2.43.0


From e94518825becdf990ee5c5a191651f4c0766f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 66/66] fix: separate nested field names with a character which
 can not be in a name

---
 planner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner.go b/planner.go
index 9273227..a6d8cd9 100644
--- a/planner.go
+++ b/planner.go
@@ -14,7 +14,7 @@ import (
 )
 
 const (
-	fieldSeparator = "___"
+	fieldSeparator = "." //it can't be a part of the variable or field name
 )
 
 var TimeType = reflect.TypeOf(time.Time{})
-- 
2.43.0

