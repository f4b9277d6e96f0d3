From cec83c8fc5707c754f4e6b2ebfbc7dbf6eb1c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 01/44] fix: tagged string tag at end of input is incomplete,
 not a crash

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 7a52698..ad8d5f5 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -974,6 +974,9 @@ func (parser *Parser) closeTaggedString(literal string) bool {
 	if literal != node.tag {
 		return false
 	}
+	if parser.stream.End() {
+		return false
+	}
 	next := parser.stream.Current()
 	if next.Type != TokenType_STRING_DELIMITER {
 		return false
-- 
2.43.0


From af26c762c65087d2a6d4117897246b03adf6575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 02/44] fix: closing brace of block comment at end of input is
 incomplete, not a crash

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index ad8d5f5..d75740a 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -1074,6 +1074,9 @@ func (parser *Parser) openBlockComment(token Token, delimiter string, nested boo
 // Attempt to close the block comment parsing context, report whether the context was closed
 func (parser *Parser) closeBlockComment() bool {
 	node := parser.context.node.(*blockCommentNode)
+	if parser.stream.End() {
+		return false
+	}
 	token := parser.stream.Current()
 	if token.Type != TokenType_COMMENT {
 		return false
-- 
2.43.0


From 3b5b30e597b2183fbe8deddca03e5854c14ea06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 03/44] fix: convert stale substitutions at end of tuples,
 blocks and expressions

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index d75740a..621c6cc 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -630,6 +630,7 @@ func (parser *Parser) openTuple(token Token) {
 
 // Close the tuple parsing context
 func (parser *Parser) closeTuple() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
@@ -669,6 +670,7 @@ func (parser *Parser) closeBlock() {
 		value += token.Literal
 	}
 	node.value = value
+	parser.endSubstitution()
 	parser.popContext()
 }
 
@@ -699,6 +701,7 @@ func (parser *Parser) openExpression(token Token) {
 
 // Close the expression parsing context
 func (parser *Parser) closeExpression() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
-- 
2.43.0


From b579e57cf727fed6371df72d5fe5e063dbf03152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 04/44] fix: report unmatched delimiter when input ends within
 a nested line comment

---
 src/core/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/parser.go b/src/core/parser.go
index 621c6cc..1ec395c 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -500,6 +500,10 @@ func (parser *Parser) Next() ParseResult {
 // This method is useful when testing for script completeness in interactive
 // mode and prompt for more input
 func (parser *Parser) CloseStream() ParseResult {
+	if _, ok := parser.context.node.(*lineCommentNode); ok {
+		// Line comments end with the stream, but the enclosing context may not
+		parser.closeLineComment()
+	}
 	if parser.context.node != nil {
 		switch (parser.context.node).(type) {
 		case *tupleNode:
@@ -514,8 +518,6 @@ func (parser *Parser) CloseStream() ParseResult {
 			return PARSE_ERROR("unmatched here-string delimiter")
 		case *taggedStringNode:
 			return PARSE_ERROR("unmatched tagged string delimiter")
-		case *lineCommentNode:
-			parser.closeLineComment()
 		case *blockCommentNode:
 			return PARSE_ERROR("unmatched block comment delimiter")
 		default:
-- 
2.43.0


From 8926464d6fc36f4c67d1f4e144a57a0f709730ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 05/44] fix: allow keyed and generic selectors after an indexed
 selector in strings

---
 src/core/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/parser.go b/src/core/parser.go
index 1ec395c..617b7aa 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -684,7 +684,9 @@ func (parser *Parser) parseExpression(token Token) ParseResult {
 	switch token.Type {
 	case TokenType_CLOSE_EXPRESSION:
 		parser.closeExpression()
-		parser.continueSubstitution()
+		if parser.expectSource() {
+			parser.continueSubstitution()
+		}
 		return PARSE_OK(nil)
 
 	default:
-- 
2.43.0


From df9f166b2a33b7125ae4729c164b92b1e443a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 06/44] fix: do not yield again when the last result is
 recalled after resuming

---
 src/core/compiler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index a9a5a89..d7cad39 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -781,6 +781,8 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			if result.Code != ResultCode_OK {
 				return result
 			}
+		} else {
+			state.SetResult(OK(state.Result.Value))
 		}
 	}
 	for state.PC < stop {
-- 
2.43.0


From 4c5b5b03adc4b817a54fd91cf87f3e275c1d3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 07/44] fix: capturing the error stack of an empty program no
 longer crashes

---
 src/helena_dialect/core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index b0361eb..9a56eaa 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -163,7 +163,7 @@ func (process *Process) Run() core.Result {
 				errorStack := result.Data.(*core.ErrorStack)
 				var level core.ErrorStackLevel
 				var frame = append([]core.Value{}, context.state.LastFrame...)
-				if context.program.OpCodePositions != nil {
+				if context.program.OpCodePositions != nil && context.state.PC > 0 {
 					level = core.ErrorStackLevel{
 						Frame:    &frame,
 						Source:   context.program.Source,
-- 
2.43.0


From 2521af249179167981bed35bca8e2fcf4635b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 08/44] fix: indexing a string returns its byte, consistently
 with ranges

---
 src/core/values.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/values.go b/src/core/values.go
index 22f9fa2..36b6e07 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -394,7 +394,7 @@ func StringAtOrDefault(value string, index Value, def Value) Result {
 			return ERROR(`index out of range "` + fmt.Sprint(i) + `"`)
 		}
 	}
-	return OK(StringValue{string(value[i])})
+	return OK(StringValue{value[i : i+1]})
 }
 
 func (value StringValue) Display(_ DisplayFunction) string {
-- 
2.43.0


From b983cdab8961fd43f0bab178d151d4fd820d2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 09/44] fix: quote lone backslash when displaying strings

---
 src/core/display.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/display.go b/src/core/display.go
index 9b62e00..1cf601d 100644
--- a/src/core/display.go
+++ b/src/core/display.go
@@ -65,7 +65,7 @@ func DisplayLiteralOrString(str string) string {
 	if len(tokens) == 0 {
 		return `""`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT && str != `\` {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"({[]`)
@@ -82,7 +82,7 @@ func DisplayLiteralOrBlock(str string) string {
 	if len(tokens) == 0 {
 		return `{}`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT && str != `\` {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"#(){}[\]]`)
-- 
2.43.0


From ce9bf4e1a848b6275394e3fb1152c38f6932adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 10/44] fix: comparing uncomparable values such as scripts or
 lists no longer crashes

---
 src/helena_dialect/numbers.go | 15 +++++++++++++--
 src/helena_dialect/strings.go |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/numbers.go b/src/helena_dialect/numbers.go
index 7b2b8ae..efd0192 100644
--- a/src/helena_dialect/numbers.go
+++ b/src/helena_dialect/numbers.go
@@ -1,6 +1,9 @@
 package helena_dialect
 
-import "helena/core"
+import (
+	"helena/core"
+	"reflect"
+)
 
 func OPERATOR_ARITY_ERROR(operator string) core.Result {
 	return core.ERROR(`wrong # operands: should be "operand1 ` + operator + ` operand2"`)
@@ -133,7 +136,7 @@ func binaryOp(
 		if len(args) != 3 {
 			return OPERATOR_ARITY_ERROR(operator)
 		}
-		if args[0] == args[2] {
+		if isSameValue(args[0], args[2]) {
 			return core.OK(core.BOOL(whenEqual))
 		}
 		result, operand2 := core.ValueToFloat(args[2])
@@ -151,6 +154,14 @@ var geOp = binaryOp(">=", true, func(op1 float64, op2 float64) bool { return op1
 var ltOp = binaryOp("<", false, func(op1 float64, op2 float64) bool { return op1 < op2 })
 var leOp = binaryOp("<=", true, func(op1 float64, op2 float64) bool { return op1 <= op2 })
 
+// Report whether both values are identical; contrary to the equality operator
+// this doesn't panic with uncomparable values such as lists or scripts
+func isSameValue(value1 core.Value, value2 core.Value) bool {
+	return reflect.ValueOf(value1).Comparable() &&
+		reflect.ValueOf(value2).Comparable() &&
+		value1 == value2
+}
+
 func floatToValue(f float64) core.Value {
 	i := int64(f)
 	if float64(i) == f {
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a21609b..b6d8f78 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -260,7 +260,7 @@ func (cmd binaryCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 3 {
 		return STRING_OPERATOR_ARITY_ERROR(cmd.name)
 	}
-	if args[1] == args[2] {
+	if isSameValue(args[1], args[2]) {
 		return core.OK(core.BOOL(cmd.whenEqual))
 	}
 	result1, operand1 := core.ValueToString(args[1])
-- 
2.43.0


From f676c77d08f2874b6da941df209d65b18f723599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 11/44] fix: list and string ranges up to the maximum integer
 no longer overflow

---
 src/helena_dialect/lists.go   | 6 +++---
 src/helena_dialect/strings.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index d5532af..b4718db 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last+1, length)]))
+		return core.OK(core.LIST(values[first:min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -164,7 +164,7 @@ func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length)+1), length):]
 	newValues := make([]core.Value, 0, len(head)+len(tail))
 	newValues = append(append(newValues, head...), tail...)
 	return core.OK(core.LIST(newValues))
@@ -234,7 +234,7 @@ func (listReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length)+1), length):]
 	result2, insert := ValueToArray(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index b6d8f78..ea11e5b 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last+1, length)]))
+		return core.OK(core.STR(str[first:min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -161,7 +161,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length)+1), length):]
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -227,7 +227,7 @@ func (stringReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length)+1), length):]
 	result2, insert := core.ValueToString(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
-- 
2.43.0


From 58c789f5f9f8f3850e623732af3993da7c1277d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 12/44] fix: list and string remove no longer accept and ignore
 an extra argument

---
 src/helena_dialect/lists.go   | 2 +-
 src/helena_dialect/strings.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index b4718db..2c9a975 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -146,7 +146,7 @@ const LIST_REMOVE_SIGNATURE = "list value remove first last"
 type listRemoveCmd struct{}
 
 func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(LIST_REMOVE_SIGNATURE)
 	}
 	result, values := ValueToArray(args[1])
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index ea11e5b..06ac9aa 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -143,7 +143,7 @@ const STRING_REMOVE_SIGNATURE = "string value remove first last"
 type stringRemoveCmd struct{}
 
 func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	result, str := core.ValueToString(args[1])
@@ -165,7 +165,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 5 {
+	if len(args) > 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	return core.OK(core.STR(STRING_REMOVE_SIGNATURE))
-- 
2.43.0


From 6894881605d555d3195d6abcf357722db95a9417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 13/44] fix: help for list and dict foreach accepts all the
 arguments the commands accept

---
 src/helena_dialect/dicts.go | 2 +-
 src/helena_dialect/lists.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index 38e6be4..5c673dd 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -375,7 +375,7 @@ func (dictForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (dictForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(DICT_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(DICT_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 2c9a975..0cdd953 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -409,7 +409,7 @@ func (listForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (listForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(LIST_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(LIST_FOREACH_SIGNATURE))
-- 
2.43.0


From 67755a408849ebf120ab4db4782bc0002b708896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 14/44] fix: catch with no handler evaluates its body as a full
 process

---
 src/helena_dialect/controls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 537d40c..1759852 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -606,7 +606,7 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.ERROR("body must be a script")
 		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
-		result := scope.Execute(program, nil)
+		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
 		switch result.Code {
 		case core.ResultCode_OK,
-- 
2.43.0


From 9924d9bf9b45db288d14208a1de0378d8aa57cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 15/44] fix: argspec default scripts may use control structures
 and user commands

---
 src/helena_dialect/argspecs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 5cd7a8b..6d66b2c 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -170,7 +170,7 @@ func (argspec ArgspecValue) setSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
@@ -376,7 +376,7 @@ func (argspec ArgspecValue) setPositionalSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
-- 
2.43.0


From 4203eae745e725ecab20f22f9eb161c98b6e2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 16/44] fix: suspended commands called from ensembles keep
 their own arguments

---
 src/helena_dialect/controls.go | 4 ++++
 src/helena_dialect/logic.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 1759852..380420d 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -333,6 +333,8 @@ func (cmd ifCmd) Execute(args []core.Value, context any) core.Result {
 	if checkResult.Code != core.ResultCode_OK {
 		return checkResult
 	}
+	// Callers may reuse the argument array upon return, so keep our own copy
+	args = append([]core.Value{}, args...)
 	i := 0
 	return ifCmdTest(scope, args, i)
 }
@@ -618,6 +620,8 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.OK(core.TUPLE([]core.Value{core.STR(core.RESULT_CODE_NAME(result))}))
 		}
 	}
+	// Callers may reuse the argument array upon return, so keep our own copy
+	args = append([]core.Value{}, args...)
 	return cmd.run(&catchState{step: catchStateStep_beforeBody, args: args}, scope)
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 260f6a1..cfd2121 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -236,6 +236,8 @@ func (andCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) < 2 {
 		return ARITY_ERROR(AND_SIGNATURE)
 	}
+	// Callers may reuse the argument array upon return, so keep our own copy
+	args = append([]core.Value{}, args...)
 	return andCmdCondition(scope, args, 1)
 }
 func (andCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -285,6 +287,8 @@ func (orCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) < 2 {
 		return ARITY_ERROR(OR_SIGNATURE)
 	}
+	// Callers may reuse the argument array upon return, so keep our own copy
+	args = append([]core.Value{}, args...)
 	return orCmdCondition(scope, args, 1)
 }
 func (orCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-- 
2.43.0


From a8902ed0e51e18b7412f40951e3570d58c753b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 17/44] fix: argspec remainder tuples never alias the argument
 array

---
 src/helena_dialect/argspecs.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 6d66b2c..ffdf76f 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -192,9 +192,10 @@ func (argspec ArgspecValue) setSlotValues(
 					// No remainder
 					value = core.TUPLE([]core.Value{})
 				} else {
-					value = core.TUPLE(
-						args[slots[slot] : slots[slot]+int(remainders)],
-					)
+					value = core.TUPLE(append(
+						[]core.Value{},
+						args[slots[slot]:slots[slot]+int(remainders)]...,
+					))
 				}
 			}
 		}
-- 
2.43.0


From 38e107ddd23d8e819b38a92c3f62a23fa5eca045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 18/44] fix: catch with non-script bodies or unhandled yields
 no longer crashes when run or resumed

---
 src/helena_dialect/controls.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 380420d..5f41f30 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -602,11 +602,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 	if checkResult.Code != core.ResultCode_OK {
 		return checkResult
 	}
+	body := args[1]
+	if body.Type() != core.ValueType_SCRIPT {
+		return core.ERROR("body must be a script")
+	}
 	if len(args) == 2 {
-		body := args[1]
-		if body.Type() != core.ValueType_SCRIPT {
-			return core.ERROR("body must be a script")
-		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
 		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
@@ -626,7 +626,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
-	state := result.Data.(*catchState)
+	state, ok := result.Data.(*catchState)
+	if !ok {
+		// Unhandled yield
+		return core.OK(result.Value)
+	}
 	if state.step == catchStateStep_inBody {
 		state.bodyProcess.YieldBack(result.Value)
 	} else {
@@ -644,8 +648,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_beforeBody:
 			{
 				body := state.args[1]
-				// TODO check type
-				program := scope.CompileScriptValue(body.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(body.(core.ScriptValue))
 				state.bodyProcess = scope.PrepareProcess(program)
 				state.step = catchStateStep_inBody
 			}
@@ -663,6 +666,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 				i := cmd.findHandlerIndex(state.bodyResult.Code, state.args)
 				if i >= len(state.args)-1 {
 					state.result = state.bodyResult
+					if state.result.Code == core.ResultCode_YIELD {
+						// Body state is not resumable from here
+						state.result.Data = nil
+					}
 					state.step = catchStateStep_beforeFinally
 					continue
 				}
@@ -679,14 +686,14 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 						)
 						program := subscope.CompileScriptValue(
 							handler.(core.ScriptValue),
-						) // TODO check type
+						)
 						state.process = subscope.PrepareProcess(program)
 					}
 				case core.ResultCode_BREAK,
 					core.ResultCode_CONTINUE:
 					{
 						handler := state.args[i+1]
-						program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+						program := scope.CompileScriptValue(handler.(core.ScriptValue))
 						state.process = scope.PrepareProcess(program)
 					}
 				default:
@@ -721,7 +728,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					return state.result
 				}
 				handler := state.args[i+1]
-				program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(handler.(core.ScriptValue))
 				state.process = scope.PrepareProcess(program)
 				state.step = catchStateStep_inFinally
 			}
@@ -817,6 +824,9 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 					if result, _ := core.ValueToString(args[i+1]); result.Code != core.ResultCode_OK {
 						return core.ERROR(`invalid ` + keyword + ` handler parameter name`)
 					}
+					if args[i+2].Type() != core.ValueType_SCRIPT {
+						return core.ERROR(`invalid ` + keyword + ` handler body`)
+					}
 					i += 3
 				}
 			}
@@ -827,6 +837,9 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 			case 1:
 				return core.ERROR(`wrong #args: missing ` + keyword + ` handler body`)
 			default:
+				if args[i+1].Type() != core.ValueType_SCRIPT {
+					return core.ERROR(`invalid ` + keyword + ` handler body`)
+				}
 				i += 2
 			}
 		default:
-- 
2.43.0


From fa23c4ac160dcc6a6b29992745e9e77c239736a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 19/44] fix: do not read pooled command states after releasing
 them

---
 src/helena_dialect/controls.go | 25 ++++++++++++++++---------
 src/helena_dialect/logic.go    |  6 ++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 5f41f30..813d698 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -145,8 +145,9 @@ func loopCmdNextIteration(state *loopCmdState) core.Result {
 }
 func loopCmdNextSource(state *loopCmdState) core.Result {
 	if state.activeSources == 0 && len(state.sources) > 0 {
+		lastResult := state.lastResult
 		loopCmdStatePool.Put(state)
-		return state.lastResult
+		return lastResult
 	}
 	state.iSource++
 	if state.iSource >= len(state.sources) {
@@ -191,8 +192,9 @@ func loopCmdBody(state *loopCmdState) core.Result {
 		state := data.(*loopCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			loopCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -266,8 +268,9 @@ func whileCmdLoop(state *whileCmdState) core.Result {
 		state := data.(*whileCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -291,15 +294,17 @@ func whileCmdTest(state *whileCmdState) core.Result {
 			return result2
 		}
 		if !b {
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		}
 		return CreateContinuationValueWithCallback(state.scope, state.bodyProgram, state, func(result core.Result, data any) core.Result {
 			state := data.(*whileCmdState)
 			switch result.Code {
 			case core.ResultCode_BREAK:
+				lastResult := state.lastResult
 				whileCmdStatePool.Put(state)
-				return state.lastResult
+				return lastResult
 			case core.ResultCode_CONTINUE:
 			case core.ResultCode_OK:
 				state.lastResult = result
@@ -358,11 +363,12 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			ifCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return ifCmdNext(result.Value, state.scope, state.args, state.i)
+			return ifCmdNext(result.Value, scope, args, i)
 		})
 	} else {
 		return ifCmdNext(test, scope, args, i)
@@ -552,18 +558,19 @@ func whenCmdTest(command core.Value, state *whenCmdState) core.Result {
 	})
 }
 func whenCmdBody(state *whenCmdState) core.Result {
-	whenCmdStatePool.Put(state)
+	scope := state.scope
 	var body core.Value
 	if state.i == len(state.cases)-1 {
 		body = state.cases[state.i]
 	} else {
 		body = state.cases[state.i+1]
 	}
+	whenCmdStatePool.Put(state)
 	if body.Type() != core.ValueType_SCRIPT {
 		return core.ERROR("body must be a script")
 	}
-	program := state.scope.CompileScriptValue(body.(core.ScriptValue))
-	return CreateContinuationValue(state.scope, program)
+	program := scope.CompileScriptValue(body.(core.ScriptValue))
+	return CreateContinuationValue(scope, program)
 }
 func (whenCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	if len(args) > 3 {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index cfd2121..e8d1bbd 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -253,11 +253,12 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return andCmdNext(result.Value, state.scope, state.args, state.i)
+			return andCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
@@ -304,11 +305,12 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return orCmdNext(result.Value, state.scope, state.args, state.i)
+			return orCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
-- 
2.43.0


From a6edacf72b4df0b7a87ce672cac3c8343e8ead52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 20/44] fix: malformed argument specifiers and short argspecs
 in help no longer crash

---
 src/helena_dialect/arguments.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 44d6ea5..063ef74 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -224,12 +224,19 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 						(nameOrDefault == "" || nameOrDefault == "?") {
 						return core.ERROR("empty argument name"), Argument{}
 					}
-					if result1.Code == core.ResultCode_OK && nameOrGuard[0] == '?' {
+					if result1.Code == core.ResultCode_OK && len(nameOrGuard) > 0 && nameOrGuard[0] == '?' {
+						if nameOrGuard == "?" {
+							return core.ERROR("empty argument name"), Argument{}
+						}
 						return core.OK(core.NIL), Argument{
 							Name:    nameOrGuard[1:],
 							Type:    ArgumentType_OPTIONAL,
 							Default: specs[1],
 						}
+					} else if result2.Code != core.ResultCode_OK {
+						return core.ERROR("invalid argument name"), Argument{}
+					} else if nameOrDefault == "" || nameOrDefault == "?" {
+						return core.ERROR("empty argument name"), Argument{}
 					} else if nameOrDefault[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:  nameOrDefault[1:],
@@ -299,6 +306,9 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 
 func BuildUsage(args []Argument, skip uint) string {
 	result := ""
+	if skip > uint(len(args)) {
+		return result
+	}
 	for i, arg := range args[skip:] {
 		if i != 0 {
 			result += " "
-- 
2.43.0


From f52dbd3a93a9941e2745d75d136bac52fab13211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 21/44] fix: reject multiple remainder arguments separated by
 other arguments

---
 src/helena_dialect/arguments.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 063ef74..29a9ae2 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -105,7 +105,9 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 		if _, ok := argnames[arg.Name]; ok {
 			return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
 		}
-		hasRemainder = arg.Type == ArgumentType_REMAINDER
+		if arg.Type == ArgumentType_REMAINDER {
+			hasRemainder = true
+		}
 		argnames[arg.Name] = struct{}{}
 		args = append(args, arg)
 	}
-- 
2.43.0


From 87fc970ae483a4da7a8fa605219b51d19f56470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 22/44] fix: report options missing their value instead of
 crashing

---
 src/helena_dialect/argspecs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index ffdf76f..3471be7 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -319,6 +319,11 @@ func (argspec ArgspecValue) findSlots(
 				slots[optionSlot] = i
 				i++
 			case OptionType_OPTION:
+				if i+1 >= len(args) {
+					return core.ERROR(
+						`missing value for option "` + OptionName(arg.Option.Names) + `"`,
+					), findSlotsResult{}
+				}
 				switch arg.Type {
 				case ArgumentType_REQUIRED:
 					nbRequired -= 2
-- 
2.43.0


From 38c35cc9428b435065bb8d290ac7cf816c58d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 23/44] fix: reject remainder arguments for options instead of
 crashing

---
 src/helena_dialect/arguments.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 29a9ae2..ae7ec39 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -93,6 +93,11 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 					`argument for flag "` + OptionName(lastOption.Names) + `" must be optional`,
 				), nil
 			}
+			if lastOption.Type == OptionType_OPTION && arg.Type == ArgumentType_REMAINDER {
+				return core.ERROR(
+					`argument for option "` + OptionName(lastOption.Names) + `" cannot be a remainder`,
+				), nil
+			}
 			arg.Option = lastOption
 			args = append(args, arg)
 			lastOption = nil
-- 
2.43.0


From 5d12790a771dfea8c56e191c5e59888a39f68425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 24/44] fix: invalid word structures raise script errors
 instead of crashing the host

---
 src/core/evaluator.go       | 27 ++++++++++++++++-----------
 src/helena_dialect/core.go  | 33 ++++++++++++++++++++++++++++++++-
 src/helena_dialect/lists.go | 21 ++++++++++++++++++---
 3 files changed, 66 insertions(+), 15 deletions(-)

diff --git a/src/core/evaluator.go b/src/core/evaluator.go
index eafcab4..0551fc1 100644
--- a/src/core/evaluator.go
+++ b/src/core/evaluator.go
@@ -52,7 +52,8 @@ func NewCompilingEvaluator(
 // Evaluate a script and return result
 //
 // This will compile then execute the script
-func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
+func (evaluator *CompilingEvaluator) EvaluateScript(script Script) (result Result) {
+	defer recoverSyntaxError(&result)
 	program := evaluator.compiler.CompileScript(script)
 	return evaluator.executor.Execute(program, nil)
 }
@@ -60,7 +61,8 @@ func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
 // Evaluate a sentence and return result
 //
 // This will execute a single-sentence script
-func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result {
+func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) (result Result) {
+	defer recoverSyntaxError(&result)
 	script := Script{}
 	script.Sentences = append(script.Sentences, sentence)
 	program := evaluator.compiler.CompileScript(script)
@@ -71,15 +73,18 @@ func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result
 //
 // This will execute a single-word program
 func (evaluator *CompilingEvaluator) EvaluateWord(word Word) (result Result) {
-	defer func() {
-		if err := recover(); err != nil {
-			if e, ok := err.(SyntaxError); ok {
-				result = ERROR(e.message)
-			} else {
-				panic(err)
-			}
-		}
-	}()
+	defer recoverSyntaxError(&result)
 	program := evaluator.compiler.CompileWord(word)
 	return evaluator.executor.Execute(program, nil)
 }
+
+// Convert syntax errors into error results
+func recoverSyntaxError(result *Result) {
+	if err := recover(); err != nil {
+		if e, ok := err.(SyntaxError); ok {
+			*result = ERROR(e.message)
+		} else {
+			panic(err)
+		}
+	}
+}
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 9a56eaa..0dd754d 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -303,9 +303,40 @@ func (scope *Scope) NewLocalScope(slots map[string]uint, values []core.Value) *S
 	return child
 }
 
-func (scope *Scope) Compile(script core.Script) *core.Program {
+func (scope *Scope) Compile(script core.Script) (program *core.Program) {
+	defer func() {
+		if err := recover(); err != nil {
+			if e, ok := err.(core.SyntaxError); ok {
+				program = syntaxErrorProgram(e)
+			} else {
+				panic(err)
+			}
+		}
+	}()
 	return scope.compiler.CompileScript(script)
 }
+
+type syntaxErrorCmd struct{ err core.SyntaxError }
+
+func (cmd syntaxErrorCmd) Execute(_ []core.Value, _ any) core.Result {
+	return core.ERROR(cmd.err.Error())
+}
+
+var syntaxErrorOpCodes = []core.OpCode{
+	core.OpCode_OPEN_FRAME,
+	core.OpCode_PUSH_CONSTANT,
+	core.OpCode_CLOSE_FRAME,
+	core.OpCode_EVALUATE_SENTENCE,
+	core.OpCode_PUSH_RESULT,
+}
+
+// Return a program that fails with the given syntax error
+func syntaxErrorProgram(err core.SyntaxError) *core.Program {
+	return core.LoadProgram(
+		syntaxErrorOpCodes,
+		[]core.Value{core.NewCommandValue(syntaxErrorCmd{err})},
+	)
+}
 func (scope *Scope) Execute(program *core.Program, state *core.ProgramState) core.Result {
 	return scope.executor.Execute(program, state)
 }
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 0cdd953..751f70a 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -433,9 +433,10 @@ func ValueToArray(value core.Value) (core.Result, []core.Value) {
 		if script.Cache.Values != nil {
 			return core.OK(core.NIL), script.Cache.Values
 		}
-		program := core.NewCompiler(nil).CompileSentences(
-			value.(core.ScriptValue).Script.Sentences,
-		)
+		program := compileList(script)
+		if program == nil {
+			return core.ERROR("invalid list"), nil
+		}
 		listExecutor := core.Executor{}
 		result := listExecutor.Execute(program, nil)
 		if result.Code != core.ResultCode_OK {
@@ -447,6 +448,20 @@ func ValueToArray(value core.Value) (core.Result, []core.Value) {
 	return core.ValueToValues(value)
 }
 
+// Compile script to a list, or return nil upon syntax errors
+func compileList(script core.ScriptValue) (program *core.Program) {
+	defer func() {
+		if err := recover(); err != nil {
+			if _, ok := err.(core.SyntaxError); ok {
+				program = nil
+			} else {
+				panic(err)
+			}
+		}
+	}()
+	return core.NewCompiler(nil).CompileSentences(script.Script.Sentences)
+}
+
 func DisplayListValue(
 	list core.ListValue,
 	fn core.DisplayFunction,
-- 
2.43.0


From 860536b7868061d543c7a49383135fa5f32171fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 25/44] fix: coroutines interrupted by an error or unexpected
 result are done

---
 src/helena_dialect/coroutines.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 8f6aa2e..937ed66 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -103,8 +103,10 @@ func (cmd *coroutineCommand) run() core.Result {
 	case core.ResultCode_YIELD:
 		return core.OK(result.Value)
 	case core.ResultCode_ERROR:
+		cmd.state = coroutineState_done
 		return result
 	default:
+		cmd.state = coroutineState_done
 		return core.ERROR("unexpected " + core.RESULT_CODE_NAME(result))
 	}
 }
-- 
2.43.0


From e575e58d31c6f9280fc3084329c82a6bd954404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 26/44] fix: waiting for a coroutine from its own body is an
 error instead of a crash

---
 src/helena_dialect/coroutines.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 937ed66..8dfd4bb 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -15,6 +15,7 @@ type coroutineCommand struct {
 	scope   *Scope
 	body    core.ScriptValue
 	state   coroutineState
+	running bool
 	process *Process
 }
 
@@ -54,6 +55,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 {
 			return ARITY_ERROR("<coroutine> wait")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is already running")
+		}
 		if cmd.state == coroutineState_inactive {
 			cmd.state = coroutineState_active
 			program := cmd.scope.CompileScriptValue(cmd.body)
@@ -77,6 +81,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 && len(args) != 3 {
 			return ARITY_ERROR("<coroutine> yield ?value?")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is already running")
+		}
 		if cmd.state == coroutineState_inactive {
 			return core.ERROR("coroutine is inactive")
 		}
@@ -94,7 +101,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 }
 
 func (cmd *coroutineCommand) run() core.Result {
+	cmd.running = true
 	result := cmd.process.Run()
+	cmd.running = false
 	switch result.Code {
 	case core.ResultCode_OK,
 		core.ResultCode_RETURN:
-- 
2.43.0


From f13edc9cbe21d7c658000ef1a9958cef34d34ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 27/44] fix: picol equality operators no longer crash on tuples
 and blocks

---
 src/picol_dialect/picol_dialect.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 7b6c833..6bc9e6f 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -1,6 +1,7 @@
 package picol_dialect
 
 import (
+	"reflect"
 	"strconv"
 
 	"helena/core"
@@ -184,13 +185,27 @@ func compareValuesCmd(
 	})
 }
 
+// Note: some value types are not comparable in Go and would panic
+func equalValues(op1 core.Value, op2 core.Value) bool {
+	if reflect.TypeOf(op1) == reflect.TypeOf(op2) {
+		if reflect.TypeOf(op1).Comparable() {
+			if op1 == op2 {
+				return true
+			}
+		} else if result, _ := core.ValueToString(op1); result.Code != core.ResultCode_OK {
+			return false
+		}
+	}
+	return asString(op1) == asString(op2)
+}
+
 var eqCmd = compareValuesCmd(
 	"==",
-	func(op1 core.Value, op2 core.Value) bool { return op1 == op2 || asString(op1) == asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return equalValues(op1, op2) },
 )
 var neCmd = compareValuesCmd(
 	"!=",
-	func(op1 core.Value, op2 core.Value) bool { return op1 != op2 && asString(op1) != asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return !equalValues(op1, op2) },
 )
 
 func compareNumbersCmd(
-- 
2.43.0


From fcf7099e01e057e8961e8441b817199b6985cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 28/44] fix: picol procs with defaults and variadic arguments
 no longer crash

---
 src/picol_dialect/picol_dialect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 6bc9e6f..1be5a7f 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -514,7 +514,11 @@ func (proc procCommand) Execute(args []core.Value, context any) core.Result {
 		argspec := proc.argspecs[p]
 		var value core.Value
 		if p == len(proc.argspecs)-1 && argspec.name == "args" {
-			value = core.TUPLE(append([]core.Value{}, args[a:]...))
+			values := []core.Value{}
+			if a < len(args) {
+				values = append(values, args[a:]...)
+			}
+			value = core.TUPLE(values)
 			a = len(args) - 1
 		} else if p < len(args)-1 {
 			value = args[a]
-- 
2.43.0


From 76206b06d25c77888ed8d523ccf38f3cf30252a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 29/44] fix: picol commands report non-script bodies instead of
 crashing

---
 src/picol_dialect/picol_dialect.go | 35 ++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 1be5a7f..a69e9bd 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -66,6 +66,9 @@ var EMPTY = core.OK(core.STR(""))
 func ARITY_ERROR(signature string) core.Result {
 	return core.ERROR(`wrong # args: should be "` + signature + `"`)
 }
+func INVALID_SCRIPT_ERROR() core.Result {
+	return core.ERROR("invalid script")
+}
 
 type simpleCommand struct {
 	fn func(args []core.Value, context any) core.Result
@@ -315,13 +318,17 @@ var ifCmd = makeCommand(
 		if testResult.Code != core.ResultCode_OK {
 			return testResult
 		}
-		var script core.ScriptValue
+		var body core.Value
 		if testResult.Value.(core.BooleanValue).Value {
-			script = args[2].(core.ScriptValue)
+			body = args[2]
 		} else if len(args) == 3 {
 			return EMPTY
 		} else {
-			script = args[4].(core.ScriptValue)
+			body = args[4]
+		}
+		script, ok := body.(core.ScriptValue)
+		if !ok {
+			return INVALID_SCRIPT_ERROR()
 		}
 		result := scope.Evaluator.EvaluateScript(script.Script)
 		if result.Code != core.ResultCode_OK {
@@ -340,10 +347,13 @@ var forCmd = makeCommand(
 		if len(args) != 5 {
 			return ARITY_ERROR("for start test next command")
 		}
-		start := args[1].(core.ScriptValue)
+		start, ok1 := args[1].(core.ScriptValue)
 		test := args[2]
-		next := args[3].(core.ScriptValue)
-		script := args[4].(core.ScriptValue)
+		next, ok2 := args[3].(core.ScriptValue)
+		script, ok3 := args[4].(core.ScriptValue)
+		if !ok1 || !ok2 || !ok3 {
+			return INVALID_SCRIPT_ERROR()
+		}
 		var result core.Result
 		result = scope.Evaluator.EvaluateScript(start.Script)
 		if result.Code != core.ResultCode_OK {
@@ -386,7 +396,10 @@ var whileCmd = makeCommand(
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-		script := args[2].(core.ScriptValue)
+		script, ok := args[2].(core.ScriptValue)
+		if !ok {
+			return INVALID_SCRIPT_ERROR()
+		}
 		var result core.Result
 		for {
 			result = evaluateCondition(test, scope)
@@ -638,12 +651,16 @@ var procCmd = makeCommand(
 		if len(args) != 4 {
 			return ARITY_ERROR("proc name args body")
 		}
-		name, _argspecs, body := args[1], args[2], args[3]
+		name, _argspecs := args[1], args[2]
+		body, ok := args[3].(core.ScriptValue)
+		if !ok {
+			return INVALID_SCRIPT_ERROR()
+		}
 		result, argspecs := valueToArgspecs(_argspecs)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
-		scope.Commands[asString(name)] = procCommand{argspecs, body.(core.ScriptValue)}
+		scope.Commands[asString(name)] = procCommand{argspecs, body}
 		return EMPTY
 	},
 )
-- 
2.43.0


From 7090fc9edb8b6b27433f789d256c4afacb3c9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 30/44] fix: picol while rejects extra arguments

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index a69e9bd..481aeb8 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -392,7 +392,7 @@ var forCmd = makeCommand(
 var whileCmd = makeCommand(
 	func(args []core.Value, context any) core.Result {
 		scope := context.(*PicolScope)
-		if len(args) != 3 && len(args) != 5 {
+		if len(args) != 3 {
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-- 
2.43.0


From aa4e254253ad0e910ddbf5eb98213a0f5fbf01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 31/44] fix: interactive prompt waits for the next line after a
 line continuation

---
 src/cli/cli.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index db60c81..7ea360b 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -199,9 +199,10 @@ var lastResult = core.OK(core.NIL)
 
 func run(scope *helena_dialect.Scope, cmd string) (core.Value, error) {
 	input := core.NewStringStream(cmd)
-	tokens := []core.Token{}
-	output := core.NewArrayTokenStream(tokens, input.Source())
+	output := core.NewArrayTokenStream([]core.Token{}, input.Source())
 	(&core.Tokenizer{}).TokenizeStream(input, output)
+	// Lines are read without their terminator, so add it to detect continuations
+	tokens := core.Tokenizer{}.Tokenize(cmd + "\n")
 	if len(tokens) > 0 &&
 		tokens[len(tokens)-1].Type == core.TokenType_CONTINUATION {
 		// Continuation, wait for next line
-- 
2.43.0


From 3dc37f11326b41d20473ed8e83268d29009e239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 32/44] fix: stale substitution characters don't extend the
 variable name before them

---
 src/core/parser.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 617b7aa..ff9a4fe 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -1154,8 +1154,26 @@ func (parser *Parser) endSubstitution() {
 			break
 		}
 	}
+	if parser.currentLiteralIsSubstituted() {
+		// Don't extend the source of a previous substitution
+		*parser.context.morphemes = append(*parser.context.morphemes, newLiteralNode(firstToken, value))
+		return
+	}
 	parser.addLiteral(firstToken, value)
 }
+
+// Report whether current morpheme is the literal source of a substitution
+func (parser *Parser) currentLiteralIsSubstituted() bool {
+	if _, ok := parser.context.currentMorpheme().(*literalNode); !ok {
+		return false
+	}
+	morphemes := *parser.context.morphemes
+	if len(morphemes) < 2 {
+		return false
+	}
+	_, ok := morphemes[len(morphemes)-2].(*substituteNextNode)
+	return ok
+}
 func (parser *Parser) withinSubstitution() bool {
 	return parser.context.substitutionMode != substitutionMode_INITIAL
 }
-- 
2.43.0


From f995126233709b8b44770a6039a09f2e77f30b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 33/44] fix: variadic subcommands called without a value don't
 crash

---
 src/helena_dialect/dicts.go   | 6 ++++++
 src/helena_dialect/lists.go   | 3 +++
 src/helena_dialect/scripts.go | 3 +++
 src/helena_dialect/strings.go | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index 5c673dd..3e3de94 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -165,6 +165,9 @@ const DICT_REMOVE_SIGNATURE = "dict value remove ?key ...?"
 type dictRemoveCmd struct{}
 
 func (dictRemoveCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_REMOVE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
@@ -191,6 +194,9 @@ const DICT_MERGE_SIGNATURE = "dict value merge ?dict ...?"
 type dictMergeCmd struct{}
 
 func (dictMergeCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_MERGE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 751f70a..f2e4017 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -123,6 +123,9 @@ const LIST_APPEND_SIGNATURE = "list value append ?list ...?"
 type listAppendCmd struct{}
 
 func (listAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(LIST_APPEND_SIGNATURE)
+	}
 	result, values := ValueToArray(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/scripts.go b/src/helena_dialect/scripts.go
index 5293c32..2e7d60c 100644
--- a/src/helena_dialect/scripts.go
+++ b/src/helena_dialect/scripts.go
@@ -82,6 +82,9 @@ const SCRIPT_APPEND_SIGNATURE = "script value append ?script ...?"
 type scriptAppendCmd struct{}
 
 func (scriptAppendCmd) Execute(args []core.Value, context any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(SCRIPT_APPEND_SIGNATURE)
+	}
 	result := valueToScript(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 06ac9aa..beecbcc 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -120,6 +120,9 @@ const STRING_APPEND_SIGNATURE = "string value append ?string ...?"
 type stringAppendCmd struct{}
 
 func (stringAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(STRING_APPEND_SIGNATURE)
+	}
 	result, str := core.ValueToString(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
-- 
2.43.0


From d6179d5926cd9f1758b3b8bdd59dc48dd5a8f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:20 +0000
Subject: [PATCH 34/44] fix: error stacks have no level for commands that
 completed before the error

---
 src/helena_dialect/core.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 0dd754d..d001e5d 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -145,14 +145,16 @@ func (process *Process) Run() core.Result {
 			// Yield result to caller
 			break
 		}
+		completed := result.Code == core.ResultCode_OK
 		if context.callback != nil {
 			// Process result with callback
 			result = context.callback(result, context.data)
 		}
 
 		if result.Code == core.ResultCode_ERROR {
-			if process.options.CaptureErrorStack {
-				// Push to error stack
+			if process.options.CaptureErrorStack && !completed {
+				// Push to error stack, unless the context completed and the error
+				// comes from the callback
 				if result.Data == nil {
 					result = core.Result{
 						Code:  result.Code,
@@ -175,7 +177,7 @@ func (process *Process) Run() core.Result {
 					}
 				}
 				errorStack.Push(level)
-			} else if result.Data != nil {
+			} else if !process.options.CaptureErrorStack && result.Data != nil {
 				// Erase error stack from result
 				result = core.Result{
 					Code:  result.Code,
-- 
2.43.0


From e583d3861a87beeff68a2596e095aa25db7b967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 35/44] fix: waiting again for a failed coroutine doesn't alter
 its error stack

---
 src/core/errors.go         |  5 +++++
 src/helena_dialect/core.go | 12 ++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/errors.go b/src/core/errors.go
index cfb5187..f69d721 100644
--- a/src/core/errors.go
+++ b/src/core/errors.go
@@ -30,6 +30,11 @@ func NewErrorStack() *ErrorStack {
 	return &ErrorStack{[]ErrorStackLevel{}}
 }
 
+// Return a copy of the stack
+func (errorStack *ErrorStack) Copy() *ErrorStack {
+	return &ErrorStack{append([]ErrorStackLevel{}, errorStack.stack...)}
+}
+
 // Return depth of the stack, i.e. number of levels
 func (errorStack *ErrorStack) Depth() uint {
 	return uint(len(errorStack.stack))
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index d001e5d..8d424c4 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -121,7 +121,7 @@ func NewProcess(scope *Scope, program *core.Program, options *ProcessOptions) *P
 
 func (process *Process) Run() core.Result {
 	if process.stack.Depth() == 0 {
-		return process.lastResult
+		return copyErrorStack(process.lastResult)
 	}
 	context := process.stack.CurrentContext()
 	result := context.scope.Execute(context.program, context.state)
@@ -189,7 +189,7 @@ func (process *Process) Run() core.Result {
 		process.stack.Pop()
 		if process.stack.Depth() == 0 {
 			// Reached bottom of stack, stop there
-			process.lastResult = result
+			process.lastResult = copyErrorStack(result)
 			break
 		}
 
@@ -209,6 +209,14 @@ func (process *Process) Run() core.Result {
 	}
 	return result
 }
+
+// Callers push levels to the error stacks they get, so give each its own copy
+func copyErrorStack(result core.Result) core.Result {
+	if errorStack, ok := result.Data.(*core.ErrorStack); ok {
+		result.Data = errorStack.Copy()
+	}
+	return result
+}
 func (process *Process) SetResult(result core.Result) {
 	context := process.stack.CurrentContext()
 	context.state.SetResult(result)
-- 
2.43.0


From 11c9210bf0c1a2831523e7e81b6db7df2789a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 36/44] fix: script values can be shared by concurrent
 interpreters

---
 src/core/values.go          | 8 ++++++--
 src/helena_dialect/core.go  | 6 +++---
 src/helena_dialect/lists.go | 9 +++++----
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/core/values.go b/src/core/values.go
index 36b6e07..1ee981e 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -7,6 +7,7 @@ package core
 import (
 	"fmt"
 	"strconv"
+	"sync/atomic"
 )
 
 // Helena standard value types
@@ -601,12 +602,15 @@ type ScriptValue struct {
 }
 
 // Run-time caching structure for script values
+//
+// Script values can be shared between interpreters running concurrently, so the
+// fields are accessed atomically
 type ScriptValueCache struct {
 	// Cached compiled program
-	Program *Program
+	Program atomic.Pointer[Program]
 
 	// Cached array of values
-	Values []Value
+	Values atomic.Pointer[[]Value]
 }
 
 func (value ScriptValue) Type() ValueType {
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 8d424c4..a262a14 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -352,11 +352,11 @@ func (scope *Scope) Execute(program *core.Program, state *core.ProgramState) cor
 }
 
 func (scope *Scope) CompileScriptValue(script core.ScriptValue) *core.Program {
-	if script.Cache.Program != nil {
-		return script.Cache.Program
+	if program := script.Cache.Program.Load(); program != nil {
+		return program
 	}
 	program := scope.Compile(script.Script)
-	script.Cache.Program = program
+	script.Cache.Program.Store(program)
 	return program
 }
 
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index f2e4017..ae3a0c1 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -433,8 +433,8 @@ func ValueToList(value core.Value) (core.Result, core.ListValue) {
 func ValueToArray(value core.Value) (core.Result, []core.Value) {
 	if value.Type() == core.ValueType_SCRIPT {
 		script := value.(core.ScriptValue)
-		if script.Cache.Values != nil {
-			return core.OK(core.NIL), script.Cache.Values
+		if values := script.Cache.Values.Load(); values != nil {
+			return core.OK(core.NIL), *values
 		}
 		program := compileList(script)
 		if program == nil {
@@ -445,8 +445,9 @@ func ValueToArray(value core.Value) (core.Result, []core.Value) {
 		if result.Code != core.ResultCode_OK {
 			return core.ERROR("invalid list"), nil
 		}
-		script.Cache.Values = result.Value.(core.TupleValue).Values
-		return core.OK(core.NIL), script.Cache.Values
+		values := result.Value.(core.TupleValue).Values
+		script.Cache.Values.Store(&values)
+		return core.OK(core.NIL), values
 	}
 	return core.ValueToValues(value)
 }
-- 
2.43.0


From f9184feedcfabb25b4b9ab172b51c9123fefcb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 37/44] fix: parsing nested blocks no longer takes cubic time

---
 src/core/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/parser.go b/src/core/parser.go
index ff9a4fe..c2c98a9 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -4,6 +4,8 @@
 
 package core
 
+import "strings"
+
 //
 // Parsing context
 //
@@ -667,11 +669,11 @@ func (parser *Parser) openBlock(token Token) {
 func (parser *Parser) closeBlock() {
 	node := (parser.context.node).(*blockNode)
 	range_ := parser.stream.Range(node.start, parser.stream.CurrentIndex()-1)
-	value := ""
+	var value strings.Builder
 	for _, token := range range_ {
-		value += token.Literal
+		value.WriteString(token.Literal)
 	}
-	node.value = value
+	node.value = value.String()
 	parser.endSubstitution()
 	parser.popContext()
 }
-- 
2.43.0


From d7eb70b2bbe2b6941914acb8d55fd2ec24a941c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 38/44] fix: logged errors have no spurious attribute

---
 src/native/go_slog/go_slog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 263251d..4bda15f 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -36,7 +36,7 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
 		msg, _ := asString((args[2]))
-		slog.Error(msg, "toto", 1)
+		slog.Error(msg)
 	case "Info":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
-- 
2.43.0


From 25da97d6e55c7f6bdffa4b7633f9639489606542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 39/44] fix: bad arguments of logging and file commands are
 reported

---
 src/native/go_os/go_os.go     |  5 ++++-
 src/native/go_slog/go_slog.go | 23 +++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/native/go_os/go_os.go b/src/native/go_os/go_os.go
index 03035d9..4485830 100644
--- a/src/native/go_os/go_os.go
+++ b/src/native/go_os/go_os.go
@@ -29,7 +29,10 @@ func (OsCmd) Execute(args []core.Value, _ any) core.Result {
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "os ReadFile name"`)
 		}
-		name, _ := asString((args[2]))
+		name, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid file name")
+		}
 		data, err := os.ReadFile(name)
 		if err != nil {
 			return core.ERROR(err.Error())
diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 4bda15f..9630cb8 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -29,26 +29,41 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Debug msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Debug(msg)
 	case "Error":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Error(msg)
 	case "Info":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Info(msg)
 	case "Warn":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Warn msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Warn(msg)
+
+	default:
+		return core.ERROR("unsupported method " + method)
 	}
 	return core.OK(core.NIL)
 }
-- 
2.43.0


From 060304a000c6c0f8c58fa53a69dc6678bb17152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 40/44] fix: displayed scripts ending with a comment are closed

---
 src/core/values.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/core/values.go b/src/core/values.go
index 1ee981e..c686651 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -7,6 +7,7 @@ package core
 import (
 	"fmt"
 	"strconv"
+	"strings"
 	"sync/atomic"
 )
 
@@ -634,9 +635,30 @@ func (value ScriptValue) Display(fn DisplayFunction) string {
 	if value.Source == nil {
 		return fn(value)
 	}
+	if value.endsWithLineComment() {
+		// Keep the closing brace out of the comment
+		return "{" + *value.Source + "\n}"
+	}
 	return "{" + *value.Source + "}"
 }
 
+// Return whether the last line of the source ends with a line comment
+func (value ScriptValue) endsWithLineComment() bool {
+	lastLine := (*value.Source)[strings.LastIndex(*value.Source, "\n")+1:]
+	if len(value.Script.Sentences) == 0 || strings.TrimSpace(lastLine) == "" {
+		return false
+	}
+	words := value.Script.Sentences[len(value.Script.Sentences)-1].Words
+	if len(words) == 0 {
+		return false
+	}
+	morphemes := words[len(words)-1].Word.Morphemes
+	if len(morphemes) == 0 {
+		return false
+	}
+	return morphemes[len(morphemes)-1].Type() == MorphemeType_LINE_COMMENT
+}
+
 //
 // Command value
 //
-- 
2.43.0


From 02b422bb0063be49857d90b6da2cbf23d0ddc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 41/44] fix: labels of undisplayable values cannot close their
 comment

---
 src/core/display.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/display.go b/src/core/display.go
index 1cf601d..a7b2468 100644
--- a/src/core/display.go
+++ b/src/core/display.go
@@ -6,6 +6,7 @@ package core
 
 import (
 	"regexp"
+	"strings"
 )
 
 // Value display function
@@ -23,7 +24,12 @@ func UndisplayableValue() string {
 
 // Undisplayable values represented as a label in block comment within a block.
 func UndisplayableValueWithLabel(label string) string {
-	return `{#{` + label + `}#}`
+	// Use a delimiter longer than any in the label
+	delimiter := `#`
+	for strings.Contains(label, delimiter) {
+		delimiter += `#`
+	}
+	return `{` + delimiter + `{` + label + `}` + delimiter + `}`
 }
 
 // Helena displayable object
-- 
2.43.0


From e392c2d26b80918fd953880302ab96db2175f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 42/44] fix: outcomes of interactive commands are reported once

---
 src/cli/cli.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index 7ea360b..7faa909 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -226,7 +226,8 @@ func run(scope *helena_dialect.Scope, cmd string) (core.Value, error) {
 	process := scope.PrepareProcess(program)
 	process.SetResult(lastResult)
 	result := process.Run()
-	lastResult = result
+	// Only keep the value, other outcomes are reported once
+	lastResult = core.OK(result.Value)
 	if result.Code == core.ResultCode_ERROR {
 		printErrorStack(result.Data.(*core.ErrorStack))
 	}
-- 
2.43.0


From 53aa91aa7340c3b6c17675d083d0ae5cbc607498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 43/44] fix: argspec set leaves variables unchanged when one of
 them can't be set

The variables were set in random order until the first failure, so both the
reported error and the variables left set depended on the run.
---
 src/helena_dialect/core.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index a262a14..2675adf 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -534,13 +534,24 @@ func (scope *Scope) SetNamedVariable(name string, value core.Value) core.Result
 	return core.OK(value)
 }
 func (scope *Scope) SetNamedVariables(slots map[string]uint, values []core.Value) core.Result {
+	// Check all the names before setting any value, and report the first failure
+	// in slot order
+	failure, failedSlot := core.OK(core.NIL), uint(len(values))
 	for name, slot := range slots {
-		if values[slot] == nil {
+		if values[slot] == nil || slot >= failedSlot {
 			continue
 		}
-		result := scope.SetNamedVariable(name, values[slot])
+		result := scope.checkNamedVariable(name)
 		if result.Code != core.ResultCode_OK {
-			return result
+			failure, failedSlot = result, slot
+		}
+	}
+	if failure.Code != core.ResultCode_OK {
+		return failure
+	}
+	for name, slot := range slots {
+		if values[slot] != nil {
+			scope.Context.Variables[name] = values[slot]
 		}
 	}
 	return core.OK(core.NIL)
-- 
2.43.0


From 1f10d3fdd9c628185d712d1ea6520cdc7a60d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 44/44] fix: if imported as else runs as if

The first argument, the name the command is called by, was mistaken for the
final else clause.
---
 src/helena_dialect/controls.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 813d698..997b390 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -350,8 +350,7 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 	if i >= len(args) {
 		return core.OK(core.NIL)
 	}
-	_, keyword := core.ValueToString(args[i])
-	if keyword == "else" {
+	if ifCmdIsElse(args, i) {
 		return ifCmdBody(scope, args, i)
 	}
 	test := args[i+1]
@@ -387,7 +386,7 @@ func ifCmdNext(value core.Value, scope *Scope, args []core.Value, i int) core.Re
 }
 func ifCmdBody(scope *Scope, args []core.Value, i int) core.Result {
 	var body core.Value
-	if _, s := core.ValueToString(args[i]); s == "else" {
+	if ifCmdIsElse(args, i) {
 		body = args[i+1]
 	} else {
 		body = args[i+2]
@@ -398,6 +397,16 @@ func ifCmdBody(scope *Scope, args []core.Value, i int) core.Result {
 	program := scope.CompileScriptValue(body.(core.ScriptValue))
 	return CreateContinuationValue(scope, program)
 }
+
+// ifCmdIsElse tells whether the clause at the given index is the final else;
+// the first argument is the command itself, whatever its name
+func ifCmdIsElse(args []core.Value, i int) bool {
+	if i == 0 {
+		return false
+	}
+	_, keyword := core.ValueToString(args[i])
+	return keyword == "else"
+}
 func (ifCmd) checkArgs(args []core.Value) core.Result {
 	if len(args) == 2 {
 		return core.ERROR("wrong # args: missing if body")
-- 
2.43.0

