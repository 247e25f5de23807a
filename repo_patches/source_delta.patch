From 599a7ecad2eff99d7dc4ae274e57d71efe8e0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 01/59] fix: end block comments at their first terminator

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 330a093..0648b1d 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -284,7 +284,7 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
-		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
+		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			match := matches[0]
-- 
2.43.0


From 85e1bae88601ec4214e0d2ba7785a27392d28fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 02/59] fix: lex identifiers starting with true or false as
 identifiers

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0648b1d..f59baa2 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -298,7 +298,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^(true|false)`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^(true|false)\b`).FindString(source[i:]); match != "" {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From 0c93629fdf18de787c2fcf878154721926b85b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 03/59] fix: keep non-ASCII bytes of the source as they are

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index f59baa2..d130c6f 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -225,7 +225,7 @@ func char(s string, position int) string {
 	c := ""
 
 	if position < len(s) {
-		c = string(s[position])
+		c = s[position : position+1]
 	}
 	return c
 }
-- 
2.43.0


From 0e57ec853f4f37445d8981631fcc48bbe55e771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 04/59] fix: support all Go escape sequences in string literals

---
 lexer/lexer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index d130c6f..84840f0 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -258,14 +258,19 @@ func Tokenize(source string) ([]Token, error) {
 				appended := false
 
 				if match := regexp.MustCompile(`^\\.`).FindString(source[i:]); !raw && match != "" {
-					// Convert escaped character to be a control character (https://pkg.go.dev/strconv#Unquote).
-					parsed, err := strconv.Unquote(fmt.Sprintf(`"%s"`, match))
+					// Convert escape sequence to the character it stands for (https://pkg.go.dev/strconv#UnquoteChar).
+					parsed, multibyte, tail, err := strconv.UnquoteChar(source[i:], '"')
 
 					if err != nil {
 						return nil, fmt.Errorf(`invalid escape sequence "%s"`, match)
 					}
-					str += parsed
-					i += len(match)
+
+					if multibyte {
+						str += string(parsed)
+					} else {
+						str += string([]byte{byte(parsed)})
+					}
+					i = sourceLength - len(tail)
 					appended = true
 				} else if (raw && c0 == "`") || (!raw && c0 == `"`) {
 					// Detected string end.
-- 
2.43.0


From 81d4a4fb287a7c32762fa153118dd7926be537b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 05/59] fix: report correct positions after multi-line tokens

---
 lexer/lexer.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 84840f0..f3028b8 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -292,13 +292,7 @@ func Tokenize(source string) ([]Token, error) {
 		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-			match := matches[0]
-			lines := strings.Split(match, "\n")
-			lastLinesIndex := len(lines) - 1
-			row += lastLinesIndex
-			ogColumn = startIndex
-			i += len(match)
-			ogI = i - len(lines[lastLinesIndex])
+			i += len(matches[0])
 		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
@@ -350,11 +344,14 @@ func Tokenize(source string) ([]Token, error) {
 			}
 		}
 
-		if token.tokenType == NEWLINE {
-			row++
-			column = startIndex
+		// Calculate position of the next token (tokens might span several lines).
+		text := source[ogI:i]
+		row += strings.Count(text, "\n")
+
+		if lastNewline := strings.LastIndex(text, "\n"); lastNewline >= 0 {
+			column = startIndex + (len(text) - lastNewline - 1)
 		} else {
-			column = ogColumn + (i - ogI)
+			column = ogColumn + len(text)
 		}
 
 		// If still no token has been found, exit with error.
-- 
2.43.0


From d6c86c15dc77d49e816b3441d89519c182cffe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 06/59] fix: lex a minus after an operand as operator

---
 lexer/lexer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index f3028b8..8f53278 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -230,6 +230,22 @@ func char(s string, position int) string {
 	return c
 }
 
+// endsOperand tells if the last token ends an operand, which means that a following minus is a binary operator.
+func endsOperand(tokens []Token) bool {
+	length := len(tokens)
+
+	return length > 0 && slices.Contains([]TokenType{
+		IDENTIFIER,
+		BOOL_LITERAL,
+		NUMBER_LITERAL,
+		STRING_LITERAL,
+		NIL_LITERAL,
+		CLOSING_ROUND_BRACKET,
+		CLOSING_SQUARE_BRACKET,
+		CLOSING_CURLY_BRACKET,
+	}, tokens[length-1].tokenType)
+}
+
 func Tokenize(source string) ([]Token, error) {
 	var err error = nil
 	tokens := []Token{}
@@ -301,7 +317,7 @@ func Tokenize(source string) ([]Token, error) {
 			// Create bool token.
 			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
 			i += len(match)
-		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
+		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" && !(c0 == "-" && endsOperand(tokens)) {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
 			i += len(match)
-- 
2.43.0


From a28e2e5e55c1ec727ed6dc857c4b63387180d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 07/59] fix: make comparison operators left-associative

---
 parser/parser.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 819565f..d8b3279 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2260,12 +2260,17 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
-	operatorToken := p.peek()
-	operator := operatorToken.Value()
 
-	if operatorToken.Type() == lexer.COMPARE_OPERATOR {
+	// To implement associativity, use for-loop and keep appending comparisons.
+	for {
+		operatorToken := p.peek()
+		operator := operatorToken.Value()
+
+		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
+			break
+		}
 		p.eat() // Eat operator token.
-		rightExpression, err := p.evaluateComparison(ctx)
+		rightExpression, err := p.evaluateAddition(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2274,14 +2279,14 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		rightType := rightExpression.ValueType()
 
 		if !leftType.Equals(rightType) {
-			return nil, p.expectedError(fmt.Sprintf("same comparison types but got %s and %s", leftType.DataType(), rightType.String()), operatorToken)
+			return nil, p.expectedError(fmt.Sprintf("same comparison types but got %s and %s", leftType.String(), rightType.String()), operatorToken)
 		}
 		allowedOperators := allowedCompareOperators(leftType)
 
 		if !slices.Contains(allowedOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		return NewComparison(leftExpression, operator, rightExpression), nil
+		leftExpression = NewComparison(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
-- 
2.43.0


From 9021bc8f0ac74f23f26983102b2a64e36b351a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 08/59] fix: allow repeated negation

---
 parser/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d8b3279..39645af 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2098,7 +2098,14 @@ func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 		}
 	}
 	valueToken := p.peek()
-	expr, err := p.evaluateSingleExpression(ctx)
+
+	// If a unary operator has been found, further unary operators might follow (e.g. !!a).
+	evaluateOperand := p.evaluateSingleExpression
+
+	if negate {
+		evaluateOperand = p.evaluateUnaryOperation
+	}
+	expr, err := evaluateOperand(ctx)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d90890a4c736f87bc5a1a0bdf38008ac5684e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 09/59] fix: require a boolean right operand for logical
 operators

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 39645af..e5505ee 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2318,11 +2318,16 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		}
 		p.eat() // Eat operator token.
 		operatorValue := operatorToken.Value()
+		rightToken := p.peek()
 		rightExpression, errTemp := higherPrioOperation(ctx)
 
 		if errTemp != nil {
 			return nil, errTemp
 		}
+
+		if !rightExpression.ValueType().IsBool() {
+			return nil, p.expectedError("boolean value", rightToken)
+		}
 		leftExpression = LogicalOperation{
 			left:     leftExpression,
 			operator: operatorValue,
-- 
2.43.0


From 454042a0c8e0e6c65d68f809c5c933776c59772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 10/59] fix: do not panic on void function calls in expressions

---
 parser/function.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index c330183..a7847b9 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -67,6 +67,8 @@ func functionValueType(returnTypes []ValueType) ValueType {
 
 	if len(returnTypes) > 1 {
 		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
+	} else if len(returnTypes) == 0 {
+		valueType = NewValueType(DATA_TYPE_UNKNOWN, false) // Function doesn't return a value.
 	} else {
 		valueType = returnTypes[0]
 	}
-- 
2.43.0


From dbab97f5e833cdcee73cb917f8736c338238d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 11/59] fix: check every return statement of a function

---
 parser/literals.go |  1 +
 parser/parser.go   | 66 ++++++++++++++++++++++++++++++----------------
 2 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/parser/literals.go b/parser/literals.go
index 8171ee3..7db9b33 100644
--- a/parser/literals.go
+++ b/parser/literals.go
@@ -34,6 +34,7 @@ func (l IntegerLiteral) Value() int {
 
 type StringLiteral struct {
 	value string
+	null  bool // True, if the literal has been created from nil.
 }
 
 func (l StringLiteral) StatementType() StatementType {
diff --git a/parser/parser.go b/parser/parser.go
index e5505ee..42ac967 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -46,6 +46,12 @@ type context struct {
 	variables  map[string]Variable           // Stores the variable name to variable relation.
 	functions  map[string]FunctionDefinition // Stores the function name to function relation.
 	scopeStack []scope                       // Stores the current scopes.
+	function   functionContext               // Stores information about the function that is currently evaluated.
+}
+
+type functionContext struct {
+	name        string
+	returnTypes []ValueType
 }
 
 func newContext() context {
@@ -152,6 +158,7 @@ func (c context) clone() context {
 		variables:  maps.Clone(c.variables),
 		functions:  maps.Clone(c.functions),
 		scopeStack: slices.Clone(c.scopeStack),
+		function:   c.function,
 	}
 }
 
@@ -1428,6 +1435,9 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 	}
 	prefixedName := buildPrefixedName(p.prefix, name)
 
+	// Make sure return statements can be checked, no matter how deep they are nested.
+	ctx.function = functionContext{name: name, returnTypes: returnTypes}
+
 	// Make sure sub-statements know in which function they are currently in.
 	p.currFunc = prefixedName
 
@@ -1440,28 +1450,12 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 			lastStatement = statements[length-1]
 		}
 
-		if len(returnTypes) > 0 {
-			// If a return value is required, the last statement must be a return statement.
-			if last {
-				// TODO: Add token position to errors to raise clearer error messages.
-				if lastStatement == nil || lastStatement.StatementType() != STATEMENT_TYPE_RETURN {
-					errTemp = fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
-				} else if returnStatement := lastStatement.(Return); len(returnStatement.Values()) != len(returnTypes) {
-					errTemp = fmt.Errorf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(returnStatement.Values()))
-				} else {
-					for i, returnValue := range returnStatement.Values() {
-						returnType := returnTypes[i]
-						returnValueType := returnValue.ValueType()
-
-						if !returnValueType.Equals(returnType) {
-							errTemp = fmt.Errorf(`function "%s" returns %s but expects %s`, name, returnValueType.String(), returnType.String())
-							break
-						}
-					}
-				}
+		// If a return value is required, the last statement must be a return statement.
+		if len(returnTypes) > 0 && last {
+			// TODO: Add token position to errors to raise clearer error messages.
+			if lastStatement == nil || lastStatement.StatementType() != STATEMENT_TYPE_RETURN {
+				errTemp = fmt.Errorf(`function "%s" requires a return statement at the end of the block`, name)
 			}
-		} else if lastStatement != nil && lastStatement.StatementType() == STATEMENT_TYPE_RETURN {
-			errTemp = fmt.Errorf("function %s must not have a return statement", name)
 		}
 		return errTemp
 	}, ctx, SCOPE_FUNCTION)
@@ -1489,11 +1483,37 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 	if returnToken.Type() != lexer.RETURN {
 		return nil, p.expectedKeywordError("return", returnToken)
 	}
+	name := ctx.function.name
+	returnTypes := ctx.function.returnTypes
+
+	if len(returnTypes) == 0 {
+		return nil, p.atError(fmt.Sprintf("function %s must not have a return statement", name), returnToken)
+	}
 	evaluatedVals, err := p.evaluateValues(ctx)
 
 	if err != nil {
 		return nil, err
 	}
+	values := evaluatedVals.values
+
+	if len(values) != len(returnTypes) {
+		return nil, p.atError(fmt.Sprintf(`function "%s" requires %d return values but returns %d`, name, len(returnTypes), len(values)), returnToken)
+	}
+
+	for i, value := range values {
+		returnType := returnTypes[i]
+
+		// A nil slice is an empty slice.
+		if literal, ok := value.(StringLiteral); ok && literal.null && returnType.IsSlice() {
+			value = SliceInstantiation{dataType: returnType.DataType()}
+			values[i] = value
+		}
+		valueType := value.ValueType()
+
+		if !valueType.Equals(returnType) {
+			return nil, p.atError(fmt.Sprintf(`function "%s" returns %s but expects %s`, name, valueType.String(), returnType.String()), returnToken)
+		}
+	}
 	return Return{
 		values: evaluatedVals.values,
 	}, nil
@@ -1997,8 +2017,8 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 			value: integer,
 		}
 	case lexer.NIL_LITERAL:
-		p.eat()                // Eat string token.
-		expr = StringLiteral{} // nil is an empty string literal.
+		p.eat()                          // Eat string token.
+		expr = StringLiteral{null: true} // nil is an empty string literal.
 	case lexer.STRING_LITERAL:
 		p.eat() // Eat string token.
 		expr = StringLiteral{
-- 
2.43.0


From 0839f1cbbcae12f85dcdf01b2767a75298b53045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:42 +0000
Subject: [PATCH 12/59] fix: reject void and multi-value calls where a single
 value is required

---
 parser/parser.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 42ac967..4c24eeb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -511,6 +511,7 @@ func (p *Parser) evaluateVarNames() ([]lexer.Token, error) {
 
 func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 	expressions := []Expression{}
+	valuesToken := p.peek()
 
 	for {
 		exprToken := p.peek()
@@ -545,9 +546,26 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
 		}
 	}
-	return evaluatedValues{
+	evaluated := evaluatedValues{
 		values: expressions,
-	}, nil
+	}
+
+	// Only a single call is allowed to provide several values.
+	if multi, _ := evaluated.isMultiReturnCall(); !multi {
+		for _, expr := range expressions {
+			if err := p.checkSingleValue(expr, valuesToken); err != nil {
+				return evaluatedValues{}, err
+			}
+		}
+	}
+	return evaluated, nil
+}
+
+func (p *Parser) checkSingleValue(expr Expression, token lexer.Token) error {
+	if slices.Contains([]DataType{DATA_TYPE_UNKNOWN, DATA_TYPE_MULTIPLE}, expr.ValueType().DataType()) {
+		return p.expectedError("a single value", token)
+	}
+	return nil
 }
 
 func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword string, minArgs int, maxArg int, ctx context, stmtCallout func(keywordToken lexer.Token, expressions []Expression) (Statement, error)) (Statement, error) {
@@ -568,6 +586,7 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 	// Evaluate arguments if it's a print call with arguments.
 	if nextToken.Type() != lexer.CLOSING_ROUND_BRACKET {
 		for {
+			exprToken := p.peek()
 			expr, err := p.evaluateExpression(ctx)
 
 			if err != nil {
@@ -576,6 +595,14 @@ func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword stri
 			expressions = append(expressions, expr)
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
+			multi, _ := evaluatedValues{expressions}.isMultiReturnCall()
+
+			// Only a single call is allowed to provide several values.
+			if !multi || nextTokenType == lexer.COMMA {
+				if err := p.checkSingleValue(expr, exprToken); err != nil {
+					return nil, err
+				}
+			}
 
 			if nextTokenType == lexer.COMMA {
 				p.eat()
@@ -1647,6 +1674,11 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 			return nil, err
 		}
 	}
+	err = p.checkSingleValue(switchExpr, exprToken)
+
+	if err != nil {
+		return nil, err
+	}
 	switchExprValueType := switchExpr.ValueType()
 
 	if switchExprValueType.IsSlice() {
@@ -2382,6 +2414,11 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 		argToken := nextToken
 		expr, err = p.evaluateExpression(ctx)
 
+		if err != nil {
+			return nil, err
+		}
+		err = p.checkSingleValue(expr, argToken)
+
 		if err != nil {
 			return nil, err
 		}
@@ -2843,6 +2880,9 @@ func (p *Parser) evaluatePrint(ctx context) (Statement, error) {
 
 func (p *Parser) evaluatePanic(ctx context) (Statement, error) {
 	return p.evaluateBuiltInFunction(lexer.PANIC, "panic", 1, 1, ctx, func(keywordToken lexer.Token, expressions []Expression) (Statement, error) {
+		if err := p.checkSingleValue(expressions[0], keywordToken); err != nil {
+			return nil, err
+		}
 		return Panic{
 			expression: expressions[0],
 		}, nil
-- 
2.43.0


From 4f2ff6dc4c125c88351ebc5de0f6ae239790f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 13/59] fix: check the types of write data, input prompts,
 slice elements and subscript ends

---
 parser/parser.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4c24eeb..ca808ab 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2691,6 +2691,11 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	endToken := nextToken
 	endIndex := startIndex
 
+	// Without a colon, the start-index must be the only index.
+	if !gotRange && nextToken.Type() != lexer.CLOSING_SQUARE_BRACKET {
+		return nil, p.expectedError(`":" or "]"`, nextToken)
+	}
+
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
 		// If range but no end-index is provided, create one by using Len-expression.
 		if gotRange {
@@ -2713,6 +2718,10 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			return nil, p.expectedError(`"]"`, nextToken)
 		}
 
+		if endIndexValueType := endIndex.ValueType(); !endIndexValueType.IsInt() {
+			return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+		}
+
 		// End-index is not included.
 		endIndex = BinaryOperation{
 			left:     endIndex,
@@ -2720,11 +2729,6 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			right:    IntegerLiteral{1},
 		}
 	}
-	endIndexValueType := endIndex.ValueType()
-
-	if !endIndexValueType.IsInt() {
-		return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
-	}
 
 	if !isSlice {
 		return StringSubscript{
@@ -2789,11 +2793,11 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 	if err != nil {
 		return nil, err
 	}
-	variableDataType := variableValueType.DataType()
-	assignedDataType := value.ValueType().DataType()
+	elementValueType := NewValueType(variableValueType.DataType(), false)
+	assignedValueType := value.ValueType()
 
-	if variableDataType != assignedDataType {
-		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", variableDataType, assignedDataType), valueToken)
+	if !elementValueType.Equals(assignedValueType) {
+		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", elementValueType.String(), assignedValueType.String()), valueToken)
 	}
 	return SliceAssignment{
 		Variable: variable,
@@ -2858,6 +2862,10 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 		if len(expressions) > 0 {
 			expr = expressions[0]
+
+			if !expr.ValueType().IsString() {
+				return nil, p.expectedError("prompt string", keywordToken)
+			}
 		}
 		return Input{
 			prompt: expr,
@@ -2988,7 +2996,7 @@ func (p *Parser) evaluateWrite(ctx context) (Expression, error) {
 		}
 		data := expressions[1]
 
-		if !path.ValueType().IsString() {
+		if !data.ValueType().IsString() {
 			return nil, p.expectedError("data string as second parameter", keywordToken)
 		}
 		var append Expression = BooleanLiteral{false}
-- 
2.43.0


From d8cc5661c8bebbcd117682ceabbd1e16c760a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 14/59] fix: find global variables of imported files in nested
 scopes

---
 parser/parser.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ca808ab..f16ad66 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -132,8 +132,12 @@ func (c context) findImport(alias string) (string, bool) {
 	return hash, exists
 }
 
-func (c context) findVariable(name string, prefix string, global bool) (Variable, bool) {
-	prefixedName, err := c.buildPrefixedName(name, prefix, global, true)
+func (c context) findVariable(name string, prefix string) (Variable, bool) {
+	// Local variables are stored without a prefix.
+	if variable, exists := c.variables[strings.TrimSpace(name)]; exists && !variable.Global() {
+		return variable, true
+	}
+	prefixedName, err := c.buildPrefixedName(name, prefix, true, true)
 
 	if err != nil {
 		return Variable{}, false
@@ -438,7 +442,7 @@ func (p *Parser) isShortVarInit() bool {
 
 func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error {
 	name := token.Value()
-	_, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	_, exists := ctx.findVariable(name, p.prefix)
 
 	if exists {
 		return p.atError(fmt.Sprintf("variable %s has already been defined", name), token)
@@ -1086,7 +1090,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		prefix := p.prefix
 		global := ctx.global()
 		name := nameToken.Value()
-		variable, exists := ctx.findVariable(name, prefix, global)
+		variable, exists := ctx.findVariable(name, prefix)
 		variableValueType := variable.ValueType()
 
 		// If the variable already exists, make sure it has the same type as the specified type.
@@ -1231,7 +1235,7 @@ func (p *Parser) evaluateCompoundAssignment(ctx context) (Statement, error) {
 	name := nameToken.Value()
 
 	// Make sure variable has been defined.
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1302,7 +1306,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		name := nameToken.Value()
 
 		// Make sure variable has been defined.
-		definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+		definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 		if !exists {
 			return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1345,7 +1349,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		p.eat()
 
 		name := nameToken.Value()
-		_, exists := ctx.findVariable(name, p.prefix, false)
+		_, exists := ctx.findVariable(name, p.prefix)
 
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
@@ -2006,7 +2010,7 @@ func (p *Parser) evaluateVarEvaluation(ctx context) (Expression, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
@@ -2244,7 +2248,7 @@ func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 					stmt, err = p.evaluateVarAssignment(ctx)
 				default:
 					// Handle slice assignment.
-					variable, exists := ctx.findVariable(token.Value(), p.prefix, ctx.global())
+					variable, exists := ctx.findVariable(token.Value(), p.prefix)
 
 					// If variable has been defined and is a slice, handles slice assignment.
 					if exists && variable.ValueType().IsSlice() {
@@ -2751,7 +2755,7 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 		return nil, p.expectedError("slice variable", nameToken)
 	}
 	name := nameToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -2813,7 +2817,7 @@ func (p *Parser) evaluateIncrementDecrement(ctx context) (Statement, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
-- 
2.43.0


From 0272a3d5b373a1c2c822d7ebd8d72d784e430bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 15/59] fix: assign the defined variable instead of a new one
 of the same name

---
 parser/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f16ad66..8001d05 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1097,6 +1097,12 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		if exists && specifiedType.DataType() != DATA_TYPE_UNKNOWN && !specifiedType.Equals(variableValueType) {
 			return nil, p.atError(fmt.Sprintf(`variable "%s" already exists but has type %s`, name, variableValueType.String()), nextToken)
 		}
+
+		// Already defined variables are just assigned.
+		if exists {
+			variables = append(variables, variable)
+			continue
+		}
 		storedName := name
 
 		if global {
@@ -1317,7 +1323,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		if valueType != expectedValueType {
 			return nil, p.expectedError(fmt.Sprintf("%s but got %s", expectedValueType.String(), valueType.String()), valuesToken)
 		}
-		variables = append(variables, NewVariable(name, valueType, ctx.global(), isPublic(name)))
+		variables = append(variables, definedVariable)
 	}
 
 	if isMultiReturnFuncCall {
-- 
2.43.0


From de3b4996a210e491e22b49f6168178b591f13915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:30 +0000
Subject: [PATCH 16/59] fix: reject repeated names in definitions, parameters
 and ranges

---
 parser/parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8001d05..49d722f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1024,6 +1024,15 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 	nameTokensLength := len(nameTokens)
 	firstNameToken := nameTokens[0]
 
+	// Make sure no variable is defined more than once.
+	for i, nameToken := range nameTokens {
+		for _, otherNameToken := range nameTokens[:i] {
+			if nameToken.Value() == otherNameToken.Value() {
+				return nil, p.atError(fmt.Sprintf("variable %s is repeated", nameToken.Value()), nameToken)
+			}
+		}
+	}
+
 	// Check if all variables are already defined.
 	if nameTokensLength > 1 {
 		alreadyDefined := 0
@@ -1357,7 +1366,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		name := nameToken.Value()
 		_, exists := ctx.findVariable(name, p.prefix)
 
-		if exists {
+		if exists || slices.ContainsFunc(params, func(param Variable) bool { return param.Name() == name }) {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
 		}
 		valueType, err := p.evaluateValueType()
@@ -1821,6 +1830,10 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 				return nil, err
 			}
 			valueVarName = nextToken.Value()
+
+			if valueVarName == indexVarName {
+				return nil, p.atError(fmt.Sprintf("variable %s is repeated", valueVarName), nextToken)
+			}
 		}
 		nextToken = p.eat()
 		hasNamedVar := len(valueVarName) > 0
-- 
2.43.0


From b7481762e46697a41ab8598c10131eed98480207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 17/59] fix: scope for-header variables to the loop and allow
 several of them

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 49d722f..c80cc08 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1805,8 +1805,14 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 	// Clone context to avoid modification of the original.
 	ctx = ctx.clone()
 
-	// If next token is an identifier and the one after it a comma or a short-init operator and range keyword, parse a for-range statement.
-	if nextTokenType == lexer.IDENTIFIER && (nextAfterNextTokenType == lexer.COMMA || (nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE)) {
+	// Variables of the loop header belong to the loop.
+	ctx.scopeStack = append(ctx.scopeStack, SCOPE_FOR)
+
+	isRange := nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE
+	isRangeWithValue := nextAfterNextTokenType == lexer.COMMA && p.peekAt(3).Type() == lexer.SHORT_INIT_OPERATOR && p.peekAt(4).Type() == lexer.RANGE
+
+	// If next token is an identifier and the tokens after it a short-init operator (optionally preceded by a value variable) and range keyword, parse a for-range statement.
+	if nextTokenType == lexer.IDENTIFIER && (isRange || isRangeWithValue) {
 		p.eat()
 		err := p.checkNewVariableNameToken(nextToken, ctx)
 
-- 
2.43.0


From a650064d56bf1f0b35c2eac1e6117cf33087b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 18/59] fix: accept slice literals and multi-value calls in
 for-headers

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c80cc08..b4e9738 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1931,8 +1931,8 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		// Therefore create a fake condition.
 		if nextTokenType == lexer.OPENING_CURLY_BRACKET {
 			condition = trueCondition
-		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.OPENING_CURLY_BRACKET); err == nil {
-			// If a semicolon was found before the curly bracket, consider for as a three-part for-loop.
+		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.NEWLINE); err == nil {
+			// If a semicolon was found in the header (which might contain curly brackets too), consider for as a three-part for-loop.
 			nextToken := p.peek()
 
 			// If the next token is not a semicolon, consider it a statement.
@@ -1957,7 +1957,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					if err != nil {
 						return nil, err
 					}
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment or variable definition", nextToken)
 				}
@@ -1996,7 +1996,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					return nil, err
 				}
 				switch increment.StatementType() {
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment", nextToken)
 				}
-- 
2.43.0


From 6fbef8fe02f827332aa3914c59798c3181baff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 19/59] fix: link every imported file once, reject import
 cycles and keep all used functions

---
 parser/parser.go | 140 ++++++++++++++++++++++++-----------------------
 1 file changed, 73 insertions(+), 67 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b4e9738..dc88a65 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -193,6 +193,12 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 
 type blockCallback func(statements []Statement, last bool) error
 
+type module struct {
+	prefix    string
+	functions []FunctionDefinition // Stores the public functions of the module.
+	parsed    bool
+}
+
 type Parser struct {
 	tokens    []lexer.Token
 	index     int
@@ -200,11 +206,13 @@ type Parser struct {
 	prefix    string
 	currFunc  string
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	modules   map[string]*module  // Maps file paths to modules (shared between the parsers of all files).
 }
 
 func New() Parser {
 	return Parser{
 		usedFuncs: map[string][]string{},
+		modules:   map[string]*module{},
 	}
 }
 
@@ -222,6 +230,7 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		}
 		path = pathTemp
 	}
+	path = filepath.Clean(path)
 
 	// Make sure path exists.
 	if _, err := os.Stat(path); err != nil {
@@ -247,13 +256,22 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		h := sha256.New()
 		h.Write(source)
 
-		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		p.prefix = p.uniquePrefix(fmt.Sprintf("%x", h.Sum(nil))[0:7]) // Only use the 7 first characters (inspired by Git).
 	}
+	currModule := &module{prefix: p.prefix}
+	p.modules[path] = currModule
 	program, err := p.evaluateProgram()
 
 	if err != nil {
 		return Program{}, err
 	}
+	currModule.parsed = true
+
+	for _, statement := range program.Body() {
+		if function, ok := statement.(FunctionDefinition); ok && function.Public() {
+			currModule.functions = append(currModule.functions, function)
+		}
+	}
 
 	// If this is the original program, removed unused stuff.
 	if !imported {
@@ -262,6 +280,25 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	return program, nil
 }
 
+// uniquePrefix makes sure that different files never share a prefix (e.g. if they have the same content).
+func (p *Parser) uniquePrefix(prefix string) string {
+	uniquePrefix := prefix
+
+	for i := 2; p.prefixExists(uniquePrefix); i++ {
+		uniquePrefix = fmt.Sprintf("%s_%d", prefix, i)
+	}
+	return uniquePrefix
+}
+
+func (p *Parser) prefixExists(prefix string) bool {
+	for _, module := range p.modules {
+		if module.prefix == prefix {
+			return true
+		}
+	}
+	return false
+}
+
 func allowedBinaryOperators(t ValueType) []BinaryOperator {
 	operators := []BinaryOperator{}
 
@@ -452,25 +489,23 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 
 func (p *Parser) getUsedFuncs(startFunc string) []string {
 	usedFuncs := []string{}
-	startFunc = strings.TrimSpace(startFunc)
+	pendingFuncs := []string{strings.TrimSpace(startFunc)}
+	visitedFuncs := map[string]bool{}
 
-	if usedFuncsTemp, exists := p.usedFuncs[startFunc]; exists {
-		if len(startFunc) > 0 && !slices.Contains(usedFuncs, startFunc) {
-			usedFuncs = append(usedFuncs, startFunc)
-		}
+	// Visit all functions that can be reached from the start function once.
+	for len(pendingFuncs) > 0 {
+		pendingFunc := pendingFuncs[0]
+		pendingFuncs = pendingFuncs[1:]
 
-		for _, usedFuncTemp := range usedFuncsTemp {
-			if !slices.Contains(usedFuncs, usedFuncTemp) {
-				usedFuncs = append(usedFuncs, usedFuncTemp)
-			}
-			usedSubFuncs := p.getUsedFuncs(usedFuncTemp)
+		if visitedFuncs[pendingFunc] {
+			continue
+		}
+		visitedFuncs[pendingFunc] = true
 
-			for _, usedSubFunc := range usedSubFuncs {
-				if !slices.Contains(usedFuncs, usedSubFunc) {
-					usedFuncs = append(usedFuncs, usedSubFunc)
-				}
-			}
+		if len(pendingFunc) > 0 {
+			usedFuncs = append(usedFuncs, pendingFunc)
 		}
+		pendingFuncs = append(pendingFuncs, p.usedFuncs[pendingFunc]...)
 	}
 	return usedFuncs
 }
@@ -666,7 +701,7 @@ func (p *Parser) evaluateProgram() (Program, error) {
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	var nextToken lexer.Token
-	statementsTemp := []Statement{}
+	statements := []Statement{}
 
 	// Skip empty characters.
 	for {
@@ -729,36 +764,38 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
-			importParser := New()
-			importedProg, err := importParser.parse(absPath, true)
+			absPath = filepath.Clean(absPath)
 
-			if err != nil {
-				return nil, err
+			// If the file hasn't been imported yet, parse it.
+			if _, exists := p.modules[absPath]; !exists {
+				importParser := New()
+				importParser.usedFuncs = p.usedFuncs
+				importParser.modules = p.modules
+				importedProg, err := importParser.parse(absPath, true)
+
+				if err != nil {
+					return nil, err
+				}
+				statements = append(statements, importedProg.Body()...)
+			}
+			importedModule := p.modules[absPath]
+
+			if !importedModule.parsed {
+				return nil, fmt.Errorf(`import cycle via "%s" in "%s"`, path, p.path)
 			}
 
 			if _, exists := ctx.findImport(alias); exists {
 				return nil, fmt.Errorf(`import alias "%s" already exists`, alias)
 			}
-			err = ctx.addImport(alias, importParser.prefix)
+			err = ctx.addImport(alias, importedModule.prefix)
 
 			if err != nil {
 				return nil, err
 			}
-			statementsTemp = append(statementsTemp, importedProg.Body()...)
-
-			// Import-parser funcs with current parser funcs.
-			for funcName, usedFuncs := range importParser.usedFuncs {
-				if foundUsedFuncs, exists := p.usedFuncs[funcName]; !exists {
-					p.usedFuncs[funcName] = usedFuncs
-				} else {
-					for _, usedFunc := range foundUsedFuncs {
-						if !slices.Contains(foundUsedFuncs, usedFunc) {
-							p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
-						}
-					}
-				}
-			}
 
+			for _, function := range importedModule.functions {
+				ctx.functions[function.Name()] = function
+			}
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
 
@@ -774,37 +811,6 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 		}
 	}
-	statements := []Statement{}
-
-	// Add functions add variables.
-	for _, statement := range statementsTemp {
-		exists := false
-
-		switch statement.StatementType() {
-		case STATEMENT_TYPE_VAR_DEFINITION:
-			definedVariable := statement.(VariableDefinition)
-
-			for _, variable := range definedVariable.Variables() {
-				name := variable.Name()
-
-				if _, exists = ctx.variables[name]; !exists && variable.Public() {
-					ctx.variables[name] = variable
-				}
-			}
-		case STATEMENT_TYPE_FUNCTION_DEFINITION:
-			definedFunction := statement.(FunctionDefinition)
-			name := definedFunction.Name()
-
-			if _, exists = ctx.functions[name]; !exists && definedFunction.Public() {
-				ctx.functions[name] = definedFunction
-			}
-		}
-
-		// Prevent code duplication.
-		if !exists {
-			statements = append(statements, statement)
-		}
-	}
 	return statements, nil
 }
 
-- 
2.43.0


From 9d4ecb2247ca91ea0002235a7a76c2e93afe6b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 20/59] fix: skip blank lines in import groups and switches and
 imports at the end of a file

---
 parser/parser.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index dc88a65..d73db14 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -470,6 +470,12 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+func (p *Parser) skipNewlines() {
+	for p.peek().Type() == lexer.NEWLINE {
+		p.eat()
+	}
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -704,13 +710,8 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	statements := []Statement{}
 
 	// Skip empty characters.
-	for {
-		nextToken = p.peek()
-		if !slices.Contains([]lexer.TokenType{lexer.NEWLINE}, nextToken.Type()) {
-			break
-		}
-		p.eat()
-	}
+	p.skipNewlines()
+	nextToken = p.peek()
 
 	if nextToken.Type() == lexer.IMPORT {
 		p.eat()
@@ -724,6 +725,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if nextToken.Type() != lexer.NEWLINE {
 				return nil, p.expectedNewlineError(nextToken)
 			}
+			p.skipNewlines()
 		}
 
 		for {
@@ -827,11 +829,13 @@ func (p *Parser) evaluateImport() (evaluatedImport, error) {
 		return evaluatedImport{}, p.expectedError("import path", nextToken)
 	}
 	path := nextToken.Value()
-	nextToken = p.eat()
+	nextToken = p.peek()
 
 	if !slices.Contains([]lexer.TokenType{lexer.NEWLINE, lexer.EOF}, nextToken.Type()) {
 		return evaluatedImport{}, p.expectedError("newline or end-of-file", nextToken)
 	}
+	p.skipNewlines()
+
 	return evaluatedImport{
 		alias,
 		path,
@@ -1719,6 +1723,8 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.NEWLINE {
 		return nil, p.expectedNewlineError(nextToken)
 	}
+	p.skipNewlines()
+
 	fakeIf := If{
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
-- 
2.43.0


From 21e39c1da6fea9a17b59c6a80597677c562ae9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 21/59] fix: evaluate all values of an assignment before
 assigning them

---
 transpiler/transpiler.go | 77 +++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 12 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 6787bb6..a7aafd8 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -44,13 +44,27 @@ func IntToString(i int) string {
 }
 
 type transpiler struct {
-	converter Converter
+	converter   Converter
+	tempCounter int
 }
 
 func New() transpiler {
 	return transpiler{}
 }
 
+// refersToVariable tells if the evaluated expression is just a reference to a variable.
+func refersToVariable(expr parser.Expression) bool {
+	switch e := expr.(type) {
+	case parser.VariableEvaluation:
+		return true
+	case parser.Group:
+		return refersToVariable(e.Child())
+	case parser.Itoa:
+		return refersToVariable(e.Value())
+	}
+	return false
+}
+
 func (t *transpiler) Transpile(path string, converter Converter) (string, error) {
 	p := parser.New()
 	ast, err := p.Parse(path)
@@ -59,6 +73,7 @@ func (t *transpiler) Transpile(path string, converter Converter) (string, error)
 		return "", err
 	}
 	t.converter = converter
+	t.tempCounter = 0
 	err = t.evaluate(ast)
 
 	if err != nil {
@@ -365,14 +380,51 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 	return conv.ForEnd()
 }
 
-func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
-	for i, variable := range definition.Variables() {
-		result, err := t.evaluateExpression(definition.Values()[i], true)
+// evaluateAssignedValues evaluates all values before any of them is assigned.
+func (t *transpiler) evaluateAssignedValues(expressions []parser.Expression) ([]string, error) {
+	values := []string{}
+
+	for _, expr := range expressions {
+		result, err := t.evaluateExpression(expr, true)
 
 		if err != nil {
-			return err
+			return nil, err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		value := result.firstValue()
+
+		// If several values are assigned, make sure that a value which refers to a variable is not affected by the assignments.
+		if len(expressions) > 1 && refersToVariable(expr) {
+			value, err = t.storeValue(value)
+
+			if err != nil {
+				return nil, err
+			}
+		}
+		values = append(values, value)
+	}
+	return values, nil
+}
+
+func (t *transpiler) storeValue(value string) (string, error) {
+	name := fmt.Sprintf("_tv%d", t.tempCounter)
+	t.tempCounter++
+	err := t.converter.VarDefinition(name, value, false)
+
+	if err != nil {
+		return "", err
+	}
+	return t.converter.VarEvaluation(name, true, false)
+}
+
+func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
+	values, err := t.evaluateAssignedValues(definition.Values())
+
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range definition.Variables() {
+		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -407,13 +459,14 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 }
 
 func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment) error {
-	for i, variable := range assignment.Variables() {
-		result, err := t.evaluateExpression(assignment.Values()[i], true)
+	values, err := t.evaluateAssignedValues(assignment.Values())
 
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range assignment.Variables() {
+		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
 
 		if err != nil {
 			return err
-- 
2.43.0


From d47bf360082674dda24b39d96cffa168936d149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 22/59] fix: evaluate operands exactly once and from left to
 right

---
 parser/parser.go         |   2 +-
 parser/string.go         |   4 +
 transpiler/transpiler.go | 271 ++++++++++++++++++++++-----------------
 3 files changed, 157 insertions(+), 120 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d73db14..0a9bd25 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2730,7 +2730,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	}
 	nextToken = p.peek()
 	endToken := nextToken
-	endIndex := startIndex
+	var endIndex Expression
 
 	// Without a colon, the start-index must be the only index.
 	if !gotRange && nextToken.Type() != lexer.CLOSING_SQUARE_BRACKET {
diff --git a/parser/string.go b/parser/string.go
index 0a80b43..09a512a 100644
--- a/parser/string.go
+++ b/parser/string.go
@@ -22,6 +22,10 @@ func (s StringSubscript) StartIndex() Expression {
 	return s.startIndex
 }
 
+func (s StringSubscript) HasEndIndex() bool {
+	return s.endIndex != nil
+}
+
 func (s StringSubscript) EndIndex() Expression {
 	endIndex := s.endIndex
 
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index a7aafd8..9d0c4e6 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -2,6 +2,7 @@ package transpiler
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 
 	"github.com/monstermichl/typeshell/parser"
@@ -65,6 +66,47 @@ func refersToVariable(expr parser.Expression) bool {
 	return false
 }
 
+// callsFunction tells if a function is called while the expression is being evaluated.
+func callsFunction(expr parser.Expression) bool {
+	operands := []parser.Expression{}
+
+	switch e := expr.(type) {
+	case parser.FunctionCall:
+		return true
+	case parser.AppCall:
+		for call := &e; call != nil; call = call.Next() {
+			operands = append(operands, call.Args()...)
+		}
+	case parser.Operation:
+		operands = append(operands, e.Left(), e.Right())
+	case parser.UnaryOperation:
+		operands = append(operands, e.Expression())
+	case parser.Group:
+		operands = append(operands, e.Child())
+	case parser.SliceInstantiation:
+		operands = append(operands, e.Values()...)
+	case parser.SliceEvaluation:
+		operands = append(operands, e.Value(), e.Index())
+	case parser.StringSubscript:
+		operands = append(operands, e.Value(), e.StartIndex(), e.EndIndex())
+	case parser.Input:
+		if prompt := e.Prompt(); prompt != nil {
+			operands = append(operands, prompt)
+		}
+	case parser.Copy:
+		operands = append(operands, e.Source())
+	case parser.Itoa:
+		operands = append(operands, e.Value())
+	case parser.Exists:
+		operands = append(operands, e.Path())
+	case parser.Len:
+		operands = append(operands, e.Expression())
+	case parser.Read:
+		operands = append(operands, e.Path())
+	}
+	return slices.ContainsFunc(operands, callsFunction)
+}
+
 func (t *transpiler) Transpile(path string, converter Converter) (string, error) {
 	p := parser.New()
 	ast, err := p.Parse(path)
@@ -99,8 +141,43 @@ func (t *transpiler) evaluateValueTypeDefaultValue(valueType parser.ValueType) (
 	return defaultValue, nil
 }
 
-func (t *transpiler) evaluateIndex(index parser.Expression, valueUsed bool) (expressionResult, error) {
-	return t.evaluateExpression(index, true)
+// evaluateOperands evaluates expressions in the given order. If a variable is followed by an expression
+// which calls a function, its current value is stored as the function might change the variable.
+func (t *transpiler) evaluateOperands(expressions ...parser.Expression) ([]expressionResult, error) {
+	results := []expressionResult{}
+
+	for i, expr := range expressions {
+		result, err := t.evaluateExpression(expr, true)
+
+		if err != nil {
+			return nil, err
+		}
+
+		if refersToVariable(expr) && slices.ContainsFunc(expressions[i+1:], callsFunction) {
+			value, err := t.storeValue(result.firstValue())
+
+			if err != nil {
+				return nil, err
+			}
+			result = newExpressionResult(value)
+		}
+		results = append(results, result)
+	}
+	return results, nil
+}
+
+func (t *transpiler) evaluateOperandValues(expressions ...parser.Expression) ([]string, error) {
+	results, err := t.evaluateOperands(expressions...)
+
+	if err != nil {
+		return nil, err
+	}
+	values := []string{}
+
+	for _, result := range results {
+		values = append(values, result.firstValue())
+	}
+	return values, nil
 }
 
 func (t *transpiler) evaluateProgram(program parser.Program) error {
@@ -138,17 +215,12 @@ func (t *transpiler) evaluateOperation(
 	callout func(left string, operator string, right string, valueType parser.ValueType, valueUsed bool) (string, error),
 	valueUsed bool,
 ) (expressionResult, error) {
-	left, err := t.evaluateExpression(operation.Left(), true)
+	operands, err := t.evaluateOperandValues(operation.Left(), operation.Right())
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	right, err := t.evaluateExpression(operation.Right(), true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	s, err := callout(left.firstValue(), operation.Operator(), right.firstValue(), operation.Left().ValueType(), valueUsed)
+	s, err := callout(operands[0], operation.Operator(), operands[1], operation.Left().ValueType(), valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -192,14 +264,14 @@ func (t *transpiler) evaluateContinue() error {
 }
 
 func (t *transpiler) evaluatePrint(print parser.Print) error {
-	values := []string{}
+	results, err := t.evaluateOperands(print.Expressions()...)
 
-	for _, expr := range print.Expressions() {
-		result, err := t.evaluateExpression(expr, true)
+	if err != nil {
+		return err
+	}
+	values := []string{}
 
-		if err != nil {
-			return err
-		}
+	for _, result := range results {
 		values = append(values, result.values...)
 	}
 	return t.converter.Print(values)
@@ -221,64 +293,53 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as read path", valueType.String())
 	}
-	result, err := t.evaluateExpression(path, true)
-
-	if err != nil {
-		return err
-	}
-	pathString := result.firstValue()
 	data := write.Data()
 	valueType = data.ValueType()
 
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as data", valueType.String())
 	}
-	result, err = t.evaluateExpression(data, true)
-
-	if err != nil {
-		return err
-	}
-	dataString := result.firstValue()
+	operands := []parser.Expression{path, data}
 	appendExpr := write.Append()
-	appendString := BoolToString(false)
 
 	if appendExpr != nil {
-		append := write.Append()
-		valueType = append.ValueType()
+		valueType = appendExpr.ValueType()
 
 		if !valueType.IsBool() {
 			return fmt.Errorf("expected bool but got %s as append flag", valueType.String())
 		}
-		result, err = t.evaluateExpression(append, true)
+		operands = append(operands, appendExpr)
+	}
+	values, err := t.evaluateOperandValues(operands...)
 
-		if err != nil {
-			return err
-		}
-		appendString = result.firstValue()
+	if err != nil {
+		return err
+	}
+	appendString := BoolToString(false)
+
+	if appendExpr != nil {
+		appendString = values[2]
 	}
-	return t.converter.WriteFile(pathString, dataString, appendString)
+	return t.converter.WriteFile(values[0], values[1], appendString)
 }
 
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	conv := t.converter
 	ifBranch := ifStatement.IfBranch()
-	result, err := t.evaluateExpression(ifBranch.Condition(), true)
+	conditions := []parser.Expression{ifBranch.Condition()}
 
-	if err != nil {
-		return err
+	for _, branch := range ifStatement.ElseIfBranches() {
+		conditions = append(conditions, branch.Condition())
 	}
-	elifConditions := []string{}
 
 	// Evaluate all conditions first to make sure they are added in front of the first if.
-	for _, branch := range ifStatement.ElseIfBranches() {
-		result, err := t.evaluateExpression(branch.Condition(), true)
+	conditionValues, err := t.evaluateOperandValues(conditions...)
 
-		if err != nil {
-			return err
-		}
-		elifConditions = append(elifConditions, result.firstValue())
+	if err != nil {
+		return err
 	}
-	err = conv.IfStart(result.firstValue())
+	elifConditions := conditionValues[1:]
+	err = conv.IfStart(conditionValues[0])
 
 	if err != nil {
 		return err
@@ -382,15 +443,15 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 
 // evaluateAssignedValues evaluates all values before any of them is assigned.
 func (t *transpiler) evaluateAssignedValues(expressions []parser.Expression) ([]string, error) {
+	operands, err := t.evaluateOperandValues(expressions...)
+
+	if err != nil {
+		return nil, err
+	}
 	values := []string{}
 
-	for _, expr := range expressions {
-		result, err := t.evaluateExpression(expr, true)
-
-		if err != nil {
-			return nil, err
-		}
-		value := result.firstValue()
+	for i, expr := range expressions {
+		value := operands[i]
 
 		// If several values are assigned, make sure that a value which refers to a variable is not affected by the assignments.
 		if len(expressions) > 1 && refersToVariable(expr) {
@@ -501,13 +562,8 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 }
 
 func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment) error {
-	indexResult, err := t.evaluateIndex(assignment.Index(), true)
-
-	if err != nil {
-		return err
-	}
 	value := assignment.Value()
-	valueResult, err := t.evaluateExpression(value, true)
+	operands, err := t.evaluateOperandValues(assignment.Index(), value)
 
 	if err != nil {
 		return err
@@ -518,7 +574,7 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(assignment.Name(), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(assignment.Name(), operands[0], operands[1], defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
@@ -531,19 +587,12 @@ func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation,
 }
 
 func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation, valueUsed bool) (expressionResult, error) {
-	value := evaluation.Value()
-	result, err := t.evaluateExpression(value, true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	valueString := result.firstValue()
-	result, err = t.evaluateIndex(evaluation.Index(), true)
+	operands, err := t.evaluateOperandValues(evaluation.Value(), evaluation.Index())
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	s, err := t.converter.SliceEvaluation(valueString, result.firstValue(), valueUsed)
+	s, err := t.converter.SliceEvaluation(operands[0], operands[1], valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -552,23 +601,18 @@ func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation,
 }
 
 func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, valueUsed bool) (expressionResult, error) {
-	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	endIndexResult, err := t.evaluateIndex(subscript.EndIndex(), true)
+	operands := []parser.Expression{subscript.Value(), subscript.StartIndex()}
 
-	if err != nil {
-		return expressionResult{}, err
+	// If there's only a start-index, make sure it's evaluated only once.
+	if subscript.HasEndIndex() {
+		operands = append(operands, subscript.EndIndex())
 	}
-	value := subscript.Value()
-	str, err := t.evaluateExpression(value, true)
+	values, err := t.evaluateOperandValues(operands...)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	s, err := t.converter.StringSubscript(str.firstValue(), startIndexResult.firstValue(), endIndexResult.firstValue(), valueUsed)
+	s, err := t.converter.StringSubscript(values[0], values[1], values[len(values)-1], valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -601,16 +645,16 @@ func (t *transpiler) evaluateBlock(block parser.Block) error {
 }
 
 func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
-	returnValues := []ReturnValue{}
+	values, err := t.evaluateOperandValues(returnStatement.Values()...)
 
-	for _, expr := range returnStatement.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	if err != nil {
+		return err
+	}
+	returnValues := []ReturnValue{}
 
-		if err != nil {
-			return err
-		}
+	for i, expr := range returnStatement.Values() {
 		returnValues = append(returnValues, ReturnValue{
-			value:     result.firstValue(),
+			value:     values[i],
 			valueType: expr.ValueType(),
 		})
 	}
@@ -640,15 +684,10 @@ func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.Functi
 
 func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valueUsed bool) (expressionResult, error) {
 	name := functionCall.Name()
-	args := []string{}
+	args, err := t.evaluateOperandValues(functionCall.Args()...)
 
-	for _, arg := range functionCall.Args() {
-		result, err := t.evaluateExpression(arg, true)
-
-		if err != nil {
-			return expressionResult{}, err
-		}
-		args = append(args, result.firstValue())
+	if err != nil {
+		return expressionResult{}, err
 	}
 	returnTypes := functionCall.ReturnTypes()
 	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
@@ -666,26 +705,25 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 }
 
 func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expressionResult, error) {
-	convertedCalls := []AppCall{}
-	nextCall := &call
+	operands := []parser.Expression{}
 
-	for nextCall != nil {
-		name := nextCall.Name()
-		args := []string{}
+	for nextCall := &call; nextCall != nil; nextCall = nextCall.Next() {
+		operands = append(operands, nextCall.Args()...)
+	}
+	argValues, err := t.evaluateOperandValues(operands...)
 
-		for _, arg := range nextCall.Args() {
-			result, err := t.evaluateExpression(arg, true)
+	if err != nil {
+		return expressionResult{}, err
+	}
+	convertedCalls := []AppCall{}
 
-			if err != nil {
-				return expressionResult{}, err
-			}
-			args = append(args, result.firstValue())
-		}
+	for nextCall := &call; nextCall != nil; nextCall = nextCall.Next() {
+		argsLen := len(nextCall.Args())
 		convertedCalls = append(convertedCalls, AppCall{
-			name: name,
-			args: args,
+			name: nextCall.Name(),
+			args: argValues[:argsLen:argsLen],
 		})
-		nextCall = nextCall.Next()
+		argValues = argValues[argsLen:]
 	}
 	values, err := t.converter.AppCall(convertedCalls, valueUsed)
 
@@ -696,15 +734,10 @@ func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expre
 }
 
 func (t *transpiler) evaluateSliceInstantiation(instantiation parser.SliceInstantiation, valueUsed bool) (expressionResult, error) {
-	values := []string{}
+	values, err := t.evaluateOperandValues(instantiation.Values()...)
 
-	for _, expr := range instantiation.Values() {
-		result, err := t.evaluateExpression(expr, true)
-
-		if err != nil {
-			return expressionResult{}, err
-		}
-		values = append(values, result.firstValue())
+	if err != nil {
+		return expressionResult{}, err
 	}
 	s, err := t.converter.SliceInstantiation(values, valueUsed)
 
-- 
2.43.0


From 593b5659c797a8c99cb3440350ccdcabedd1ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 23/59] fix: separate the names of variables and functions from
 all other names

---
 parser/parser.go         |  2 +-
 transpiler/transpiler.go | 54 ++++++++++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0a9bd25..d49ad5a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -380,7 +380,7 @@ func isPublic(name string) bool {
 
 func buildPrefixedName(prefix string, funcName string) string {
 	if len(prefix) > 0 {
-		prefix = fmt.Sprintf("%s_", prefix)
+		prefix = fmt.Sprintf("%s:", prefix) // Use a separator which can't be part of an identifier.
 
 		// Only prefix if it doesn't already have the prefix.
 		if !strings.HasPrefix(funcName, prefix) {
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 9d0c4e6..537a36a 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"slices"
 	"strconv"
+	"strings"
 
 	"github.com/monstermichl/typeshell/parser"
 )
@@ -53,6 +54,39 @@ func New() transpiler {
 	return transpiler{}
 }
 
+// encodeName encodes a name in a way that different names always result in different encoded names,
+// even if the target doesn't differ between upper- and lower-case letters. The encoded name only
+// consists of lower-case letters, digits and underscores.
+func encodeName(name string) string {
+	encoded := strings.Builder{}
+
+	for _, c := range name {
+		switch {
+		case c >= 'A' && c <= 'Z':
+			encoded.WriteString(fmt.Sprintf("_%c", c-'A'+'a'))
+		case c == '_':
+			encoded.WriteString("__")
+		case c == ':':
+			encoded.WriteString("_1") // Separates the prefix of an imported file from the actual name.
+		case c == '.':
+			encoded.WriteString("_2") // Separates the name of a variable from its internal purpose.
+		default:
+			encoded.WriteRune(c)
+		}
+	}
+	return encoded.String()
+}
+
+// variableName makes sure that a variable never interferes with names used by the converter or the target.
+func variableName(name string) string {
+	return fmt.Sprintf("v_%s", encodeName(name))
+}
+
+// functionName makes sure that a function never interferes with names used by the converter or the target.
+func functionName(name string) string {
+	return fmt.Sprintf("f_%s", encodeName(name))
+}
+
 // refersToVariable tells if the evaluated expression is just a reference to a variable.
 func refersToVariable(expr parser.Expression) bool {
 	switch e := expr.(type) {
@@ -485,7 +519,7 @@ func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition)
 	}
 
 	for i, variable := range definition.Variables() {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -510,7 +544,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -527,7 +561,7 @@ func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment)
 	}
 
 	for i, variable := range assignment.Variables() {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -552,7 +586,7 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -574,11 +608,11 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(assignment.Name(), operands[0], operands[1], defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(variableName(assignment.Name()), operands[0], operands[1], defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
-	s, err := t.converter.VarEvaluation(evaluation.Name(), valueUsed, evaluation.Global())
+	s, err := t.converter.VarEvaluation(variableName(evaluation.Name()), valueUsed, evaluation.Global())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -666,10 +700,10 @@ func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.Functi
 	params := []string{}
 
 	for _, param := range functionDefinition.Params() {
-		params = append(params, param.Name())
+		params = append(params, variableName(param.Name()))
 	}
 	conv := t.converter
-	err := conv.FuncStart(name, params, functionDefinition.ReturnTypes())
+	err := conv.FuncStart(functionName(name), params, functionDefinition.ReturnTypes())
 
 	if err != nil {
 		return err
@@ -690,7 +724,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		return expressionResult{}, err
 	}
 	returnTypes := functionCall.ReturnTypes()
-	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
+	values, err := t.converter.FuncCall(functionName(name), args, returnTypes, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -774,7 +808,7 @@ func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionR
 		return expressionResult{}, err
 	}
 	destination := copy.Destination()
-	amount, err := t.converter.Copy(destination.Name(), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(variableName(destination.Name()), expr.firstValue(), valueUsed, destination.Global())
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From df5fc9fa4df329fc82fa37308ed41ef9eb4efeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 24/59] fix: do not let the body of a range loop change its
 iteration

---
 parser/parser.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d49ad5a..80cc44f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1872,24 +1872,33 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		}
 		iterableValueType := iterableExpression.ValueType()
 		indexVar := NewVariable(indexVarName, NewValueType(DATA_TYPE_INTEGER, false), false, false)
+
+		// Iterable and position are stored in separate variables to make sure they can't be changed by the loop's body.
+		iterableVar := NewVariable(fmt.Sprintf("%s.iterable", indexVarName), iterableValueType, false, false)
+		positionVar := NewVariable(fmt.Sprintf("%s.position", indexVarName), NewValueType(DATA_TYPE_INTEGER, false), false, false)
 		var iterableEvaluation Expression
 
 		if iterableValueType.IsSlice() {
 			iterableEvaluation = SliceEvaluation{
-				value:    iterableExpression,
-				index:    VariableEvaluation{indexVar},
+				value:    VariableEvaluation{iterableVar},
+				index:    VariableEvaluation{positionVar},
 				dataType: iterableValueType.DataType(),
 			}
 		} else if iterableValueType.IsString() {
 			iterableEvaluation = StringSubscript{
-				value:      iterableExpression,
-				startIndex: VariableEvaluation{indexVar},
+				value:      VariableEvaluation{iterableVar},
+				startIndex: VariableEvaluation{positionVar},
 			}
 		} else {
 			return nil, p.expectedError("slice or string", nextToken)
 		}
 		iterableValueType.isSlice = false // Make sure the value var is not a slice.
-		forRangeStatements := []Statement{}
+		forRangeStatements := []Statement{
+			VariableAssignment{
+				variables: []Variable{indexVar},
+				values:    []Expression{VariableEvaluation{positionVar}},
+			},
+		}
 
 		// Add count variable.
 		ctx.addVariables(p.prefix, false, indexVar)
@@ -1901,24 +1910,22 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			// Add value variable.
 			ctx.addVariables(p.prefix, false, valueVar)
 
-			forRangeStatements = []Statement{
-				VariableAssignment{
-					variables: []Variable{valueVar},
-					values:    []Expression{iterableEvaluation},
-				},
-			}
+			forRangeStatements = append(forRangeStatements, VariableAssignment{
+				variables: []Variable{valueVar},
+				values:    []Expression{iterableEvaluation},
+			})
 		}
 
 		init := VariableAssignment{
-			variables: []Variable{indexVar},
-			values:    []Expression{IntegerLiteral{0}},
+			variables: []Variable{iterableVar, positionVar},
+			values:    []Expression{iterableExpression, IntegerLiteral{0}},
 		}
 		condition := Comparison{
-			left:     VariableEvaluation{indexVar},
+			left:     VariableEvaluation{positionVar},
 			operator: COMPARE_OPERATOR_LESS,
-			right:    Len{iterableExpression},
+			right:    Len{VariableEvaluation{iterableVar}},
 		}
-		increment := incrementDecrementStatement(indexVar, true)
+		increment := incrementDecrementStatement(positionVar, true)
 		statements, err := p.evaluateBlock(nil, ctx, SCOPE_FOR)
 
 		if err != nil {
-- 
2.43.0


From 678bf36a72706c02de899a5d913345758bf8a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 25/59] fix: limit the nesting depth of statements and
 expressions

---
 parser/parser.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 80cc44f..ef13e17 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -22,6 +22,9 @@ var typeMapping = map[lexer.VarType]DataType{
 	lexer.DATA_TYPE_ERROR:   DATA_TYPE_STRING, // error is internally just a string to make heandling easier.
 }
 
+// maxDepth defines how deep statements and expressions can be nested.
+const maxDepth = 10000
+
 type scope string
 
 const (
@@ -205,6 +208,7 @@ type Parser struct {
 	path      string
 	prefix    string
 	currFunc  string
+	depth     int                 // Stores how deep the currently evaluated statement or expression is nested.
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
 	modules   map[string]*module  // Maps file paths to modules (shared between the parsers of all files).
 }
@@ -470,6 +474,19 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+func (p *Parser) enter() error {
+	p.depth++
+
+	if p.depth > maxDepth {
+		return p.atError("nesting is too deep", p.peek())
+	}
+	return nil
+}
+
+func (p *Parser) leave() {
+	p.depth--
+}
+
 func (p *Parser) skipNewlines() {
 	for p.peek().Type() == lexer.NEWLINE {
 		p.eat()
@@ -2187,6 +2204,11 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 // Learnt a lot about priority handling from this video https://www.youtube.com/watch?v=aAvL2BTHf60.
 // Precedence is the same as in Go (https://go.dev/ref/spec#Operator_precedence).
 func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	nextToken := p.peek()
 	negate := false
 
@@ -2243,10 +2265,20 @@ func (p *Parser) evaluateLogicalOr(ctx context) (Expression, error) {
 }
 
 func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	return p.evaluateLogicalOr(ctx)
 }
 
 func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	var stmt Statement
 	var err error
 
@@ -2577,6 +2609,11 @@ func (p *Parser) evaluateFunctionCall(ctx context) (Call, error) {
 }
 
 func (p *Parser) evaluateAppCall(ctx context) (Call, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	nextToken := p.eat()
 
 	if nextToken.Type() != lexer.AT {
-- 
2.43.0


From 50482ffa7f70147984a0f7e4782e8abf6ed6a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 26/59] fix: quote string values in Bash scripts

---
 converters/bash/converter.go | 17 ++++-------------
 std/os.tsh                   |  2 +-
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c388c71..1feb7df 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -34,7 +34,8 @@ func New() *converter {
 }
 
 func (c *converter) StringToString(value string) string {
-	return value
+	// Values are always used within double quotes, therefore escape all characters which have a special meaning there.
+	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `$`, `\$`, "`", "\\`").Replace(value)
 }
 
 func (c *converter) Dump() (string, error) {
@@ -275,7 +276,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-			c.VarAssignment(helper, fmt.Sprintf("\"%s%s\"", left, right), false)
+			c.VarAssignment(helper, fmt.Sprintf("%s%s", left, right), false)
 		default:
 			return notAllowedError()
 		}
@@ -553,17 +554,7 @@ func (c *converter) varName(name string, global bool) string {
 }
 
 func (c *converter) varAssignmentString(name string, value string, global bool) string {
-	length := len(value)
-
-	if length > 0 {
-		if string(value[length-1]) != `"` {
-			value = fmt.Sprintf(`%s"`, value)
-		}
-		if string(value[0]) != `"` {
-			value = fmt.Sprintf(`"%s`, value)
-		}
-	}
-	return fmt.Sprintf("%s=%s", c.varName(name, global), value)
+	return fmt.Sprintf(`%s="%s"`, c.varName(name, global), value)
 }
 
 func (c *converter) varEvaluationString(name string, global bool) string {
diff --git a/std/os.tsh b/std/os.tsh
index de27e0d..d01c2cc 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -5,7 +5,7 @@ func Shell() string {
 	if win[:3] == "Win" {
 		shell = "batch"
 	} else {
-		stdout, stderr, code := @ps("-p", "$$", "-o", "args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", `"[0-9a-zA-Z][0-9a-zA-Z]*$"`)
+		stdout, stderr, code := @sh("-c", "ps -p $PPID -o args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", "[0-9a-zA-Z][0-9a-zA-Z]*$")
 		shell = stdout
 	}
 	return shell
-- 
2.43.0


From e2d02d0c762eb0fa931c5db1ba38f26d3ce41289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 27/59] fix: print values as they are in Bash scripts

---
 converters/bash/converter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 1feb7df..37cc311 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -207,12 +207,12 @@ func (c *converter) Continue() error {
 }
 
 func (c *converter) Print(values []string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", strings.Join(values, " ")))
+	c.addLine(c.printString(strings.Join(values, " ")))
 	return nil
 }
 
 func (c *converter) Panic(value string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", value))
+	c.addLine(c.printString(value))
 	c.addLine("exit 1")
 	return nil
 }
@@ -561,6 +561,10 @@ func (c *converter) varEvaluationString(name string, global bool) string {
 	return fmt.Sprintf("${%s}", c.varName(name, global))
 }
 
+func (c *converter) printString(value string) string {
+	return fmt.Sprintf(`printf '%%s\n' "%s"`, value) // Contrary to echo, printf never interprets the value.
+}
+
 func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
 	c.sliceAssignmentHelperRequired = true
 	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
-- 
2.43.0


From 1a44e65494ebbe2b67f16985ed45d9835a026703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 28/59] fix: support more than nine parameters in Bash scripts

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 37cc311..30613e7 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -119,7 +119,7 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 	c.addLine(fmt.Sprintf("%s() {", name))
 
 	for i, param := range params {
-		s := c.varAssignmentString(param, fmt.Sprintf("$%d", i+1), false)
+		s := c.varAssignmentString(param, fmt.Sprintf("${%d}", i+1), false)
 		c.addLine(fmt.Sprintf("local %s", s))
 	}
 	return nil
-- 
2.43.0


From cc158af8f8cf5c9300c9140fb218610bd1436511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 29/59] fix: use a separate increment flag for every loop in
 Bash scripts

---
 converters/bash/converter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 30613e7..15aad8c 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -19,6 +19,7 @@ type converter struct {
 	code                          []string
 	varCounter                    int
 	forCounter                    int
+	fors                          []int
 	funcs                         []funcInfo
 	funcCounter                   int
 	sliceAssignmentHelperRequired bool
@@ -168,6 +169,8 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	c.fors = append(c.fors, c.forCounter)
+	c.forCounter++
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.addLine("while true; do")
 	return nil
@@ -191,7 +194,7 @@ func (c *converter) ForCondition(condition string) error {
 
 func (c *converter) ForEnd() error {
 	c.addLine("done")
-	c.forCounter++
+	c.fors = c.fors[:len(c.fors)-1]
 
 	return nil
 }
@@ -543,7 +546,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter)
+	return fmt.Sprintf("_fv%d", c.fors[len(c.fors)-1])
 }
 
 func (c *converter) varName(name string, global bool) string {
-- 
2.43.0


From d70ac1d6cab0c6cbbb8b79bf186f62beea0af344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 30/59] fix: evaluate slice elements exactly once in Bash
 scripts

---
 converters/bash/converter.go | 85 ++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 15aad8c..c2028bb 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -14,17 +14,18 @@ type funcInfo struct {
 }
 
 type converter struct {
-	interpreter                   string
-	startCode                     []string
-	code                          []string
-	varCounter                    int
-	forCounter                    int
-	fors                          []int
-	funcs                         []funcInfo
-	funcCounter                   int
-	sliceAssignmentHelperRequired bool
-	sliceCopyHelperRequired       bool
-	stringSubscriptHelperRequired bool
+	interpreter                      string
+	startCode                        []string
+	code                             []string
+	varCounter                       int
+	forCounter                       int
+	fors                             []int
+	funcs                            []funcInfo
+	funcCounter                      int
+	sliceAssignmentHelperRequired    bool
+	sliceInstantiationHelperRequired bool
+	sliceCopyHelperRequired          bool
+	stringSubscriptHelperRequired    bool
 }
 
 func New() *converter {
@@ -66,22 +67,35 @@ func (c *converter) ProgramEnd() error {
 		// $4: Default value
 		c.addHelper("slice assignment", "_sah",
 			"local _i=${2}",
-			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${1}")),
+			"local _c",
+			"local _l",
+			c.sliceLenString("_l", "${1}"),
 			`for ((_c=${_l};_c<${_i};_c++)); do`,
-			c.sliceAssignmentString("${1}", "${_c}", "${4}", false),
+			c.sliceAssignmentString("${1}", "${_c}", "${4}"),
 			`done`,
-			c.sliceAssignmentString("${1}", "${_i}", "${3}", false),
+			c.sliceAssignmentString("${1}", "${_i}", "${3}"),
+		)
+	}
+
+	if c.sliceInstantiationHelperRequired {
+		// $1: Slice name
+		// $2...: Values
+		c.addHelper("slice instantiation", "_sih",
+			"local _n=${1}",
+			"shift",
+			`eval "${_n}=(\"\${@}\")"`,
 		)
 	}
 
 	if c.sliceCopyHelperRequired {
+		// $1: Destination slice name
+		// $2: Source slice name
 		c.addHelper("slice copy", "_sch",
 			"local _i=0",
-			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${2}")),
-			"local _n=$(eval \"echo \\${${1}}\")",
+			"local _l",
+			c.sliceLenString("_l", "${2}"),
 			"while [ ${_i} -lt ${_l} ]; do",
-			fmt.Sprintf("local _v=%s", c.sliceEvaluationString("${2}", "${_i}")),
-			c.sliceAssignmentString("${_n}", "${_i}", "${_v}", false),
+			c.sliceAssignmentString("${1}", "${_i}", "${${2}[${_i}]}"),
 			"_i=$((${_i}+1))",
 			"done",
 		)
@@ -388,26 +402,23 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 		vals := ""
 
 		for _, value := range values {
-			vals = fmt.Sprintf(`%s \"%s\"`, vals, value)
+			vals = fmt.Sprintf(`%s "%s"`, vals, value)
 		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), strings.TrimSpace(vals)))
+		c.addLine(fmt.Sprintf(`_sih %s%s`, c.varEvaluationString(helper, false), vals))
+		c.sliceInstantiationHelperRequired = true
 	}
 	return c.varEvaluationString(helper, false), nil
 }
 
 func (c *converter) SliceEvaluation(name string, index string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(
-		helper,
-		c.sliceEvaluationString(name, index),
-		false,
-	)
+	c.addLine(c.sliceEvaluationString(c.varName(helper, false), name, index))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) SliceLen(name string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(name), false)
+	c.addLine(c.sliceLenString(c.varName(helper, false), name))
 
 	return c.VarEvaluation(helper, valueUsed, false)
 }
@@ -513,14 +524,11 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) Copy(destination string, source string, valueUsed bool, global bool) (string, error) {
-	destination = c.varName(destination, global)
-
-	c.addLine(fmt.Sprintf("_sch %s %s", destination, source))
-	c.sliceAssignmentHelperRequired = true
+	c.addLine(fmt.Sprintf("_sch %s %s", c.varEvaluationString(destination, global), source))
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(c.varEvaluationString(destination, true)), false)
+	c.addLine(c.sliceLenString(c.varName(helper, false), source)) // All elements of the source are copied.
 
 	return c.varEvaluationString(helper, false), nil
 }
@@ -568,17 +576,18 @@ func (c *converter) printString(value string) string {
 	return fmt.Sprintf(`printf '%%s\n' "%s"`, value) // Contrary to echo, printf never interprets the value.
 }
 
-func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
-	c.sliceAssignmentHelperRequired = true
-	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
+// The following strings are evaluated twice. Only slice names and indices are inserted by the first
+// evaluation, values are never evaluated more than once.
+func (c *converter) sliceAssignmentString(name string, index string, value string) string {
+	return fmt.Sprintf(`eval "%s[%s]=\"\%s\""`, name, index, value)
 }
 
-func (c *converter) sliceEvaluationString(name string, index string) string {
-	return fmt.Sprintf(`$(eval "echo \${%s[%s]}")`, name, index)
+func (c *converter) sliceEvaluationString(target string, name string, index string) string {
+	return fmt.Sprintf(`eval "%s=\"\${%s[%s]}\""`, target, name, index)
 }
 
-func (c *converter) sliceLenString(name string) string {
-	return fmt.Sprintf(`$(eval "echo \${#%s[@]}")`, name)
+func (c *converter) sliceLenString(target string, name string) string {
+	return fmt.Sprintf(`eval "%s=\${#%s[@]}"`, target, name)
 }
 
 func (c *converter) ifStart(condition string, startWord string) error {
-- 
2.43.0


From 0b09435a79e86608569505270549bd2602deb8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 31/59] fix: read input lines as they are in Bash scripts

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c2028bb..b8a0cd5 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -519,7 +519,7 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	if len(prompt) > 0 {
 		prompt = fmt.Sprintf(" -p \"%s\"", prompt)
 	}
-	c.addLine(fmt.Sprintf("read%s %s", prompt, helper))
+	c.addLine(fmt.Sprintf("IFS= read -r%s %s", prompt, c.varName(helper, false)))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From ad7f75b891844bf48819a2fbbba45a40d54a4e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 32/59] fix: write and read files without evaluating content
 and path in Bash scripts

---
 converters/bash/converter.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index b8a0cd5..c23e407 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -235,10 +235,13 @@ func (c *converter) Panic(value string) error {
 }
 
 func (c *converter) WriteFile(path string, content string, append string) error {
-	helper := c.nextHelperVar()
+	printString := c.printString(content)
 
-	c.VarAssignment(helper, fmt.Sprintf(`$(if [ "%s" -eq "%s" ]; then echo ">>"; else echo ">"; fi)`, append, transpiler.BoolToString(true)), false)
-	c.addLine(fmt.Sprintf(`eval "echo \"%s\" %s %s"`, content, c.varEvaluationString(helper, false), path))
+	c.addLine(fmt.Sprintf(`if [ "%s" -eq "%s" ]; then`, append, transpiler.BoolToString(true)))
+	c.addLine(fmt.Sprintf(`%s >> "%s"`, printString, path))
+	c.addLine("else")
+	c.addLine(fmt.Sprintf(`%s > "%s"`, printString, path))
+	c.addLine("fi")
 	return nil
 }
 
@@ -549,7 +552,8 @@ func (c *converter) Exists(path string, valueUsed bool) (string, error) {
 
 func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, fmt.Sprintf("$(cat \"%s\")", path), false)
+	c.VarAssignment(helper, fmt.Sprintf(`$(cat < "%s"; printf x)`, path), false)
+	c.trimCapture(helper)
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -617,6 +621,15 @@ func (c *converter) addLine(line string) {
 	c.code = append(c.code, line)
 }
 
+// trimCapture removes the guard, which protects trailing newlines from being removed by the command
+// substitution, and the final newline from the captured output.
+func (c *converter) trimCapture(name string) {
+	name = c.varName(name, false)
+
+	c.addLine(fmt.Sprintf(`%s=${%s%%x}`, name, name))
+	c.addLine(fmt.Sprintf(`%s=${%s%%$'\n'}`, name, name))
+}
+
 func (c *converter) nextHelperVar() string {
 	helperVar := fmt.Sprintf("_h%d", c.varCounter)
 	c.varCounter++
-- 
2.43.0


From af3f839dc8a176d9dcf062a3190114cf6973436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 33/59] fix: quote names and arguments of called programs in
 Bash scripts

---
 converters/bash/converter.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c23e407..7ca76f5 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -476,25 +476,15 @@ func (c *converter) FuncCall(name string, args []string, returnTypes []parser.Va
 }
 
 func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]string, error) {
-	callsCopy := calls
 	callStrings := []string{}
 
-	for _, call := range callsCopy {
-		argsCopy := call.Args()
+	for _, call := range calls {
+		callString := fmt.Sprintf(`"%s"`, c.StringToString(call.Name()))
 
-		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "$") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf("\"%s\"", arg)
-			}
-			argsCopy[j] = arg
-		}
-		space := ""
-
-		if len(argsCopy) > 0 {
-			space = " "
+		for _, arg := range call.Args() {
+			callString = fmt.Sprintf(`%s "%s"`, callString, arg)
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, callString)
 	}
 	callString := strings.Join(callStrings, " | ")
 
-- 
2.43.0


From de2320b229c998c5565110f387e411018107fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:29 +0000
Subject: [PATCH 34/59] fix: keep trailing newlines of captured output in Bash
 scripts

---
 converters/bash/converter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 7ca76f5..f4f65a4 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -489,7 +489,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	callString := strings.Join(callStrings, " | ")
 
 	if valueUsed {
-		callString = fmt.Sprintf("$(%s)", callString)
+		callString = fmt.Sprintf("$(%s; _s=${?}; printf x; exit ${_s})", callString)
 		helper1 := c.nextHelperVar()
 		helper2 := c.nextHelperVar()
 
@@ -500,6 +500,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 			return nil, err
 		}
 		c.VarDefinition(helper2, "$?", false)
+		c.trimCapture(helper1)
 		return []string{eval, "", c.varEvaluationString(helper2, false)}, nil // TODO: Return stderr (https://github.com/monstermichl/TypeShell/issues/28).
 	}
 	c.addLine(callString)
-- 
2.43.0


From 2a28fa95e13976d7a14d9e0ed8faa866d8257b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 35/59] fix: do not modify the passed arguments of function
 calls in the Bash converter

---
 converters/bash/converter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index f4f65a4..7eb1433 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -450,13 +450,13 @@ func (c *converter) Group(value string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) FuncCall(name string, args []string, returnTypes []parser.ValueType, valueUsed bool) ([]string, error) {
-	argsCopy := args
+	quotedArgs := []string{}
 
-	for i, arg := range argsCopy {
-		argsCopy[i] = fmt.Sprintf("\"%s\"", arg)
+	for _, arg := range args {
+		quotedArgs = append(quotedArgs, fmt.Sprintf("\"%s\"", arg))
 	}
 	returnValues := []string{}
-	c.addLine(fmt.Sprintf("%s %s", name, strings.Join(argsCopy, " "))) // TODO: Remove general parameter quoting.
+	c.addLine(fmt.Sprintf("%s %s", name, strings.Join(quotedArgs, " "))) // TODO: Remove general parameter quoting.
 
 	if valueUsed {
 		for i, _ := range returnTypes {
-- 
2.43.0


From b930faebda6309269b3a0135b96e90cad92ab7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 36/59] fix: check the start-index of a subscript only once for
 calls

---
 transpiler/transpiler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 537a36a..fca0079 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -122,7 +122,12 @@ func callsFunction(expr parser.Expression) bool {
 	case parser.SliceEvaluation:
 		operands = append(operands, e.Value(), e.Index())
 	case parser.StringSubscript:
-		operands = append(operands, e.Value(), e.StartIndex(), e.EndIndex())
+		operands = append(operands, e.Value(), e.StartIndex())
+
+		// If there's only a start-index, make sure it's checked only once.
+		if e.HasEndIndex() {
+			operands = append(operands, e.EndIndex())
+		}
 	case parser.Input:
 		if prompt := e.Prompt(); prompt != nil {
 			operands = append(operands, prompt)
-- 
2.43.0


From 7a7e2ca552105c7d6ab5cd3eead69abfc63d3798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 37/59] fix: reject break statements outside of loops

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ef13e17..b7e0d43 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1594,7 +1594,7 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 
 func (p *Parser) evaluateBreak(ctx context) (Statement, error) {
 	breakToken := p.eat()
-	breakScopes := []scope{SCOPE_FOR, SCOPE_SWITCH}
+	breakScopes := []scope{SCOPE_FOR}
 	scopeOk := false
 
 	for _, breakScope := range breakScopes {
-- 
2.43.0


From 0ae31cdf1ed54ec8ace02a655cba12f0869a4c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 38/59] fix: create a new converter for every requested output
 type

---
 tsh.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tsh.go b/tsh.go
index 92bab69..70943d2 100644
--- a/tsh.go
+++ b/tsh.go
@@ -16,9 +16,10 @@ const (
 	typeBash  string = "bash"
 )
 
-var convMapping = map[string]transpiler.Converter{
-	typeBatch: batch.New(),
-	typeBash:  bash.New(),
+// Converters keep the converted code, therefore a new one is required for each transpilation.
+var convMapping = map[string]func() transpiler.Converter{
+	typeBatch: func() transpiler.Converter { return batch.New() },
+	typeBash:  func() transpiler.Converter { return bash.New() },
 }
 
 type options struct {
@@ -58,12 +59,12 @@ func parseOptions() options {
 			}
 			options.out = cValue
 		case "-t", "--type":
-			conv, ok := convMapping[cValue]
+			newConv, ok := convMapping[cValue]
 
 			if !ok {
 				panic(fmt.Errorf("unknown converter type %s. Allowed types are %s", cValue, strings.Join(types, ", ")))
 			}
-			options.converters = append(options.converters, conv)
+			options.converters = append(options.converters, newConv())
 		default:
 			panic(fmt.Errorf("unknown option %s", cSwitch))
 		}
-- 
2.43.0


From 1fcb0b6c1a38d49192b161ba48c518fc30f420eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 39/59] fix: report if the output file could not be written

---
 tsh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index 70943d2..f006f2e 100644
--- a/tsh.go
+++ b/tsh.go
@@ -94,6 +94,10 @@ func main() {
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
 
-		os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		err = os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+
+		if err != nil {
+			panic(err)
+		}
 	}
 }
-- 
2.43.0


From 93f2041d46afe05d9f9a1630c8251647c9deecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 40/59] fix: reject options without a value

---
 tsh.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tsh.go b/tsh.go
index f006f2e..a53ce33 100644
--- a/tsh.go
+++ b/tsh.go
@@ -37,6 +37,10 @@ func parseOptions() options {
 		types = append(types, k)
 	}
 
+	if len(args)%2 == 0 {
+		panic(fmt.Errorf("no value provided for option %s", args[len(args)-1]))
+	}
+
 	for i := 1; i < (len(args) - 1); i += 2 {
 		cSwitch := args[i]
 		cValue := args[i+1]
-- 
2.43.0


From ffab65a549283165dd6368af1ea2cf077bb96e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 41/59] fix: do not overwrite the input file

---
 tsh.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tsh.go b/tsh.go
index a53ce33..4b927a6 100644
--- a/tsh.go
+++ b/tsh.go
@@ -98,7 +98,15 @@ func main() {
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
 
-		err = os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		out := filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension()))
+
+		// Make sure the input file is not being overwritten.
+		if inStat, err := os.Stat(in); err != nil {
+			panic(err)
+		} else if outStat, err := os.Stat(out); err == nil && os.SameFile(inStat, outStat) {
+			panic(fmt.Errorf("output file %s is the input file", out))
+		}
+		err = os.WriteFile(out, []byte(dump), 0777)
 
 		if err != nil {
 			panic(err)
-- 
2.43.0


From 591788ebaf5757ea9cfa7e36e7af4e8fd54a0a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 42/59] fix: never call functions of the script as programs in
 Bash scripts

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 7eb1433..3b0b530 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -479,7 +479,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	callStrings := []string{}
 
 	for _, call := range calls {
-		callString := fmt.Sprintf(`"%s"`, c.StringToString(call.Name()))
+		callString := fmt.Sprintf(`command -- "%s"`, c.StringToString(call.Name())) // Never calls a function of the script.
 
 		for _, arg := range call.Args() {
 			callString = fmt.Sprintf(`%s "%s"`, callString, arg)
-- 
2.43.0


From eb3a818720e6c038ab5e3822440448bbbc7672c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 43/59] fix: find an empty string in an empty string with
 strings.Index and never read behind the end

---
 std/strings.tsh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index e9426f9..c76cf30 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -2,13 +2,10 @@ func Index(s string, substr string) int {
 	sul := len(substr)
 	ind := -1
 
-	for i := 0; i < len(s); i++ {
+	for i := 0; i <= len(s)-sul; i++ {
 		j := 0
 
 		for ; j < sul; j++ {
-			si := i + j
-			char := s[si]
-
 			if s[i+j] != substr[j] {
 				break
 			}
-- 
2.43.0


From 758b64659bdc978ee89f7ae2d2c0c9ae71c749c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 44/59] fix: let strings.HasSuffix accept an empty suffix

---
 std/strings.tsh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index c76cf30..55d9992 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -50,8 +50,7 @@ func HasSuffix(s string, suffix string) bool {
 	l := len(suffix)
 
 	if len(s) >= l {
-		l *= -1
-		return s[l:] == suffix
+		return s[len(s)-l:] == suffix
 	}
 	return false
 }
-- 
2.43.0


From d13365609a6e5e6e631b4e83b31ed39baac488d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 45/59] fix: let strings.Repeat return an empty string for a
 count of zero

---
 std/strings.tsh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index 55d9992..2a0bbf0 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -119,9 +119,9 @@ func Split(s string, sep string) []string {
 }
 
 func Repeat(s string, count int) string {
-	new := s
+	new := ""
 
-	for i := 1; i < count; i++ {
+	for i := 0; i < count; i++ {
 		new += s
 	}
 	return new
-- 
2.43.0


From a373f462a59812d5fd7cd57e79004a665db26367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 46/59] fix: let strings.Replace leave the string unchanged for
 a count of zero

---
 std/strings.tsh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index 2a0bbf0..2a2d3f7 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -134,7 +134,7 @@ func Replace(s string, old string, new string, n int) string {
 	lenOld := len(old)
 	lenNew := len(new)
 
-	if lenOld == 0 {
+	if lenOld == 0 && n != 0 {
 		res = new
 		rep++
 	}
-- 
2.43.0


From 1e921f63f4d6393a307c28218a8b7dd2e12b1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 47/59] fix: let strings.Cut cut an empty string at an empty
 separator

---
 std/strings.tsh | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index 2a2d3f7..b2fa672 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -177,14 +177,10 @@ func CutSuffix(s string, suffix string) (string, bool) {
 }
 
 func Cut(s string, sep string) (string, string, bool) {
-	lenS := len(s)
-
-	if lenS > 0 {
-		i := Index(s, sep)
+	i := Index(s, sep)
 
-		if i >= 0 {
-			return s[0:i], s[i+len(sep):], true
-		}
+	if i >= 0 {
+		return s[0:i], s[i+len(sep):], true
 	}
 	return s, "", false
 }
-- 
2.43.0


From eb871e5272bbce0c52dcb37034d3bc9aa9c0b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 48/59] fix: let strings.Split return the last element

---
 std/strings.tsh | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index b2fa672..f91ab11 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -80,40 +80,29 @@ func Split(s string, sep string) []string {
 	sepLen := len(sep)
 	elems := []string{}
 
-	// If s and sep are empty, slice will be empty.
-	if sLen > 0 || sepLen > 0 {
+	if sepLen == 0 {
+		// If sep is empty, split after every char.
+		for i := 0; i < sLen; i++ {
+			elems[i] = s[i]
+		}
+	} else {
 		startI := 0
 		endI := 0
 		elIndex := 0
-		boundary := len(s)
-
-		if sLen > 0 {
-			boundary -= sepLen
-		}
 
-		for endI <= boundary {
+		for endI <= sLen-sepLen {
 			if s[endI:endI+sepLen] == sep {
-				sepEmpty := sepLen == 0
-
-				// If sep is empty, split after every char.
-				if sepEmpty {
-					endI++
-				}
-
-				if !sepEmpty || endI <= boundary {
-					elems[elIndex] = s[startI:endI]
-					endI += sepLen
-					startI = endI
-				}
+				elems[elIndex] = s[startI:endI]
 				elIndex++
-			} else if endI == boundary {
-				// Add last element to slice.
-				elems[elIndex] = s[startI:]
-				break
+				endI += sepLen
+				startI = endI
 			} else {
 				endI++
 			}
 		}
+
+		// Add last element to slice.
+		elems[elIndex] = s[startI:]
 	}
 	return elems
 }
-- 
2.43.0


From 39f88c965b16b421e28f82897a7f7f77febbb8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 49/59] fix: jump to the current loop's labels in Batch (unique
 end labels, continue after a nested loop)

---
 converters/batch/converter.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2d11ebc..ac5b6c4 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -32,6 +32,7 @@ type funcInfo struct {
 
 type forInfo struct {
 	label string
+	index int
 }
 
 type ifInfo struct {
@@ -48,6 +49,7 @@ type converter struct {
 	varCounter                    int
 	ifCounter                     int
 	forCounter                    int
+	endCounter                    int
 	endLabels                     []string
 	funcs                         []funcInfo
 	funcCounter                   int
@@ -341,10 +343,12 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	index := c.forCounter
 	label := c.nextForLabel()
 	c.nextEndLabel()
 	c.fors = append(c.fors, forInfo{
 		label: label,
+		index: index,
 	})
 	c.addLine(fmt.Sprintf(`set "%s="`, c.mustCurrentForVar()))
 	c.addLine(label)
@@ -818,11 +822,15 @@ func (c *converter) addEndLine(line string) {
 }
 
 func (c *converter) mustCurrentForLabel() string {
-	return forLabel(c.forCounter - 1)
+	return c.mustCurrentForInfo().label
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter-1)
+	return fmt.Sprintf("_fv%d", c.mustCurrentForInfo().index)
+}
+
+func (c *converter) mustCurrentForInfo() forInfo {
+	return c.fors[len(c.fors)-1]
 }
 
 func (c *converter) nextForLabel() string {
@@ -880,7 +888,9 @@ func (c *converter) popEndLabel() string {
 }
 
 func (c *converter) nextEndLabel() string {
-	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", len(c.endLabels)))
+	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", c.endCounter))
+	c.endCounter++
+
 	return c.mustCurrentEndLabel()
 }
 
-- 
2.43.0


From da3b02a03fe869df99bf7a5cb137c10fce686c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 50/59] fix: print blanks, on and off literally in Batch

---
 converters/batch/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index ac5b6c4..2da60bd 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -241,7 +241,7 @@ func (c *converter) ProgramEnd() error {
 	if c.echoHelperRequired {
 		v := c.varEvaluationString(funcArgVar(0), true)
 		c.addHelper("echo", echoHelper,
-			fmt.Sprintf(`if "%s" neq "" (echo %s) else echo.`, v, v), // echo. could be problematic (see discussion: https://stackoverflow.com/a/20691061).
+			fmt.Sprintf(`echo(%s`, v), // echo( also prints empty strings, blanks, "on" and "off" (see https://stackoverflow.com/a/20691061).
 		)
 	}
 	c.addEndLine(":end")
-- 
2.43.0


From fb0e040d25f564c406a3ccdc4b0e6e26621b617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 51/59] fix: compare slice indices as numbers in Batch and do
 not shorten a slice on assignment

---
 converters/batch/converter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2da60bd..c6e814d 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -173,7 +173,7 @@ func (c *converter) ProgramEnd() error {
 			`set "_i=0"`,
 			c.callFuncString(sliceLenGetHelper, []string{}, "%2"),
 			":_sch_loop",
-			`if "!_i!" lss "!_len!" (`,
+			`if !_i! lss !_len! (`,
 			`for /f "delims=" %%i in ("%2_!_i!") do set "_v=!%%i!"`,
 			c.sliceAssignmentString("!%1!", "!_i!", "!_v!", false),
 			`set /A "_i=!_i!+1"`,
@@ -196,11 +196,12 @@ func (c *converter) ProgramEnd() error {
 			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"), // Get current slice length.
 			`set "_i=!_len!"`,
 			":_sah_loop",
-			`if "!_i!" lss "%2" (`,
+			`if !_i! lss %2 (`,
 			c.sliceAssignmentString("!%1!", "!_i!", "%3", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sah_loop",
-			") else (",
+			")",
+			`if !_len! leq %2 (`,
 			`set /A "_len=%2+1"`,
 			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_len!"),
 			")",
-- 
2.43.0


From b4cecb43d7ea766eb65f077c18cc3871b508d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 52/59] fix: a panic in a function ends the program in Batch

---
 converters/batch/converter.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index c6e814d..ea6feab 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -405,7 +405,7 @@ func (c *converter) Print(values []string) error {
 func (c *converter) Panic(value string) error {
 	c.callEchoFunc(value)
 	c.addLine(`set "_e=1"`)
-	c.addLine("goto :end")
+	c.addExit()
 	return nil
 }
 
@@ -662,6 +662,11 @@ func (c *converter) FuncCall(name string, args []string, returnTypes []parser.Va
 	returnValues := []string{}
 	c.callFunc(name, args)
 
+	// Make sure that a panic within the function also ends the caller.
+	c.addLine(`if "!_e!" neq "0" (`)
+	c.addExit()
+	c.addLine(")")
+
 	if valueUsed {
 		for i := range returnTypes {
 			helper := c.nextHelperVar()
@@ -818,6 +823,16 @@ func (c *converter) addLine(line string) {
 	}
 }
 
+// addExit leaves the current function or the program if it's not within a function.
+func (c *converter) addExit() {
+	label := ":end"
+
+	if c.inFunction() {
+		label = fmt.Sprintf(":_ret_%s", c.mustCurrentFuncInfo().name)
+	}
+	c.addLine(fmt.Sprintf("goto %s", label))
+}
+
 func (c *converter) addEndLine(line string) {
 	c.endCode = append(c.endCode, line)
 }
-- 
2.43.0


From da124d3396593d7b29400bd2fc45df6806592b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 53/59] fix: subscript of an empty string in Batch

---
 converters/batch/converter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index ea6feab..4025066 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -224,7 +224,8 @@ func (c *converter) ProgramEnd() error {
 	if c.stringSubscriptHelperRequired {
 		c.addHelper("string subscript", stringSubscriptHelper,
 			`set /A "_sh=(%2-%1)+1"`,
-			fmt.Sprintf(`set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0)), // https://stackoverflow.com/a/636391
+			`set "_sub="`,
+			fmt.Sprintf(`if defined %s set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0), funcArgVar(0)), // https://stackoverflow.com/a/636391
 		)
 	}
 
-- 
2.43.0


From 47c241bfdccc01e42c824f2e05f21a40c9c1e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 54/59] fix: keep the result of copy in Batch

---
 converters/batch/converter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 4025066..e6f71ac 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -734,11 +734,14 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) Copy(destination string, source string, valueUsed bool, global bool) (string, error) {
+	helper := c.nextHelperVar()
 	c.sliceCopyHelperRequired = true
 	c.callFunc(sliceCopyHelper, []string{}, c.varName(destination, global), source)
 
 	c.callFunc(sliceLenGetHelper, []string{}, c.varEvaluationString(destination, global))
-	return c.varEvaluationString("_len", true), nil
+	c.VarAssignment(helper, c.varEvaluationString("_len", true), false)
+
+	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) Exists(path string, valueUsed bool) (string, error) {
-- 
2.43.0


From 4c77ecb10cbd678f4b37ad5c7c7ad2e4f45a4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 55/59] fix: emit slice helpers in Batch only if they are used

---
 converters/batch/converter.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index e6f71ac..05e8a5c 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -165,7 +165,6 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceCopyHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Destination slice
 		// %2: Source slice
@@ -186,7 +185,6 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceAssignmentHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Slice name
 		// %2: Assigned index
@@ -589,7 +587,7 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, "_dv!_dvc!", false)
 
-	c.sliceAssignmentHelperRequired = true
+	c.sliceLenSetHelperRequired = true
 	c.callFunc(sliceLenSetHelper, []string{}, c.varEvaluationString(helper, false), strconv.Itoa(len(values)))
 
 	// Init slice values.
-- 
2.43.0


From 7b08eb1a242395e951f191ce2615d481ee5fa7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 56/59] fix: do not shorten the destination of copy in Batch

---
 converters/batch/converter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 05e8a5c..c078a98 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -178,7 +178,8 @@ func (c *converter) ProgramEnd() error {
 			`set /A "_i=!_i!+1"`,
 			"goto :_sch_loop",
 			")",
-			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!"),
+			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"),
+			fmt.Sprintf("if !_len! lss !_i! %s", c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!")), // Don't shorten the destination.
 		)
 	}
 
@@ -736,8 +737,7 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 	c.callFunc(sliceCopyHelper, []string{}, c.varName(destination, global), source)
 
-	c.callFunc(sliceLenGetHelper, []string{}, c.varEvaluationString(destination, global))
-	c.VarAssignment(helper, c.varEvaluationString("_len", true), false)
+	c.VarAssignment(helper, c.varEvaluationString("_i", true), false) // All elements of the source are copied.
 
 	return c.VarEvaluation(helper, valueUsed, false)
 }
-- 
2.43.0


From a67b1fb0d993f24e9bec36d3b7727a1011608464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 57/59] fix: insert quotes and percent signs of string literals
 safely in Batch

---
 converters/batch/converter.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index c078a98..46ba4f2 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -56,6 +56,7 @@ type converter struct {
 	fors                          []forInfo
 	ifs                           []ifInfo
 	lfSet                         bool
+	dqSet                         bool
 	appCallHelperRequired         bool
 	readHelperRequired            bool
 	sliceAssignmentHelperRequired bool
@@ -93,6 +94,14 @@ func (c *converter) StringToString(value string) string {
 	// Replace "\n" with Batch newline value.
 	value = strings.ReplaceAll(value, "\n", "!LF!")
 
+	// A percent sign starts a variable reference which is already evaluated when a line is parsed.
+	value = strings.ReplaceAll(value, "%", "%%")
+
+	// A quote ends the quoted section it's placed in, therefore it's inserted delayed.
+	if strings.Contains(value, `"`) {
+		c.addDq()
+		value = strings.ReplaceAll(value, `"`, "!_dq!")
+	}
 	return value
 }
 
@@ -933,3 +942,10 @@ func (c *converter) addLf() {
 		c.lfSet = true
 	}
 }
+
+func (c *converter) addDq() {
+	if !c.dqSet {
+		c.addStartLine(`set _dq="`)
+		c.dqSet = true
+	}
+}
-- 
2.43.0


From 6fb288714f57dad741b46cbb70abef9685bf171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 58/59] fix: quote the paths of read and write in Batch

---
 converters/batch/converter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 46ba4f2..0addf49 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -141,7 +141,7 @@ func (c *converter) ProgramEnd() error {
 			`set "_a=>"`,
 			fmt.Sprintf(`if "%%2" equ "%s" set "_a=>>"`, transpiler.BoolToString(true)),
 			fmt.Sprintf(`for /f "delims=" %%%%i in ("!%s!") do (`, funcArgVar(0)),
-			`for /f "delims=" %%j in ('echo %%i!_a! %~1') do (`,
+			`for /f "delims=" %%j in ('echo %%i!_a! "%~1"') do (`,
 			"rem", // NOP (https://stackoverflow.com/a/7191952). The for-loop is just required to expand !_a! delayed.
 			`)`,
 			`set "_a=>>"`,
@@ -164,7 +164,7 @@ func (c *converter) ProgramEnd() error {
 	if c.readHelperRequired {
 		c.addHelper("read", fileReadHelper,
 			`set "_h="`,
-			`for /f "delims=" %%i in (%~1) do (`,
+			`for /f "usebackq delims=" %%i in ("%~1") do (`,
 			`if defined _h set "_h=!_h!!LF!"`,
 			`set "_h=!_h!%%i"`,
 			")",
@@ -423,7 +423,7 @@ func (c *converter) WriteFile(path string, content string, append string) error
 
 	// Use global variable to pass content to write file helper because Batch doesn't
 	// support newline passing because it splits arguments at newlines.
-	c.callFunc(fileWriteHelper, []string{content}, path, append)
+	c.callFunc(fileWriteHelper, []string{content}, fmt.Sprintf(`"%s"`, path), append)
 
 	return nil
 }
@@ -767,7 +767,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	c.readHelperRequired = true
 
 	c.addLf()
-	c.callFunc(fileReadHelper, []string{}, path)
+	c.callFunc(fileReadHelper, []string{}, fmt.Sprintf(`"%s"`, path))
 	c.VarAssignment(helper, c.varEvaluationString("_h", true), false)
 
 	return c.VarEvaluation(helper, valueUsed, false)
-- 
2.43.0


From 612cb6b797b5b2e8f3cb51f3d6d72f3f3297799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 59/59] fix: quote names and arguments of called programs in
 Batch

---
 converters/batch/converter.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 0addf49..ddf7c0b 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -693,25 +693,15 @@ func (c *converter) FuncCall(name string, args []string, returnTypes []parser.Va
 }
 
 func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]string, error) {
-	callsCopy := calls
 	callStrings := []string{}
 
-	for _, call := range callsCopy {
-		argsCopy := call.Args()
+	for _, call := range calls {
+		words := []string{c.quoteWord(c.StringToString(call.Name()), valueUsed)}
 
-		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "%") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf(`"%s"`, arg)
-			}
-			argsCopy[j] = arg
-		}
-		space := ""
-
-		if len(argsCopy) > 0 {
-			space = " "
+		for _, arg := range call.Args() {
+			words = append(words, c.quoteWord(arg, valueUsed))
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, strings.Join(words, " "))
 	}
 
 	if valueUsed {
@@ -735,6 +725,21 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	return []string{"", "", "0"}, nil
 }
 
+// quoteWord quotes a program's name or argument if it contains characters which would split or end the command.
+// Delayed quotes are required if the command itself is placed within quotes.
+func (c *converter) quoteWord(word string, delayed bool) string {
+	if len(word) > 0 && !strings.ContainsAny(word, " \t\r()&|<>^%;,=") && word[0] != ':' {
+		return word
+	}
+	quote := `"`
+
+	if delayed {
+		c.addDq()
+		quote = "!_dq!"
+	}
+	return fmt.Sprintf("%s%s%s", quote, word, quote)
+}
+
 func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
 	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, helper, prompt))
-- 
2.43.0

