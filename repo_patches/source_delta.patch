From fce22cfcab3f1781d37e624f1a10664781ebfddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 01/79] fix: or/|| stopped at the first false operand instead
 of the first true one

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 34854b6..2969df3 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1487,7 +1487,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 		else
 		{
 			// process or
-			if (!result)
+			if (result)
 			{
 				break;
 			}
-- 
2.43.0


From 9c15d882d66005e456bbfe6d366bd78bff8ebe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 02/79] fix: equality of lists compares the elements with the
 language's equality (nested lists, numbers, nil)

---
 CppLisp/CppLispInterpreter/Variant.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index be6ea42..c468ca3 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -494,7 +494,9 @@ namespace CppLisp
 		}
 		if (l.IsList() && r.IsList())
 		{
-			return l.ListValueRef().SequenceEqual(r.ListValueRef());
+			const IEnumerable<std::shared_ptr<object>> & left = l.ListValueRef();
+			const IEnumerable<std::shared_ptr<object>> & right = r.ListValueRef();
+			return left.size() == right.size() && std::equal(left.begin(), left.end(), right.begin(), [](const std::shared_ptr<object> & a, const std::shared_ptr<object> & b) -> bool { return EqualOp(LispVariant(a), LispVariant(b)); });
 		}
 		if (l.IsUndefined() || r.IsUndefined())
 		{
-- 
2.43.0


From ae5f17e852aa82f53c82670ca0be8903d40f103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 03/79] fix: map, reduce and apply passed nested lists of
 quoted data as code instead of as values

---
 CppLisp/CppLispInterpreter/Environment.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2969df3..b2b4688 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1012,7 +1012,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
@@ -1032,7 +1032,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		args.push_back(std::make_shared<object>(*result));		
 		var x = *(function.Function(args, scope));
 		result = std::make_shared<LispVariant>(x);
@@ -1341,7 +1341,12 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 
 	if (arguments.IsList())
 	{
-		const IEnumerable<std::shared_ptr<object>> & argumentsArray = arguments.ListValueRef();
+		// nested lists of quoted data are values and not code: pass them as LispVariant
+		std::vector<std::shared_ptr<object>> argumentsArray;
+		for (var elem : arguments.ListValueRef())
+		{
+			argumentsArray.push_back(std::make_shared<object>(LispVariant(elem)));
+		}
 		var result = fcn->FunctionValue().Function(argumentsArray, scope);
 		return result;
 	}
-- 
2.43.0


From 8deb667e1552012c50d03fb5d70b57b0691527b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 04/79] fix: expressions without a result, like (if #f 1),
 crashed when their value was used

---
 CppLisp/CppLispInterpreter/Environment.cpp | 24 +++++++++++-----------
 CppLisp/CppLispInterpreter/Interpreter.cpp |  2 +-
 CppLisp/CppLispInterpreter/Interpreter.h   | 17 +++++++++++++++
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b2b4688..263496f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -244,7 +244,7 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
-	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAst(arg, scope) : arg->ToLispVariant();
+	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAstToValue(arg, scope) : arg->ToLispVariant();
 }
 
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
@@ -256,7 +256,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
 	return std::make_shared<LispVariant>(ret);
@@ -1013,7 +1013,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(LispVariant(elem)));
-		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
+		list.Add(std::make_shared<object>(*LispInterpreter::ValueOf(function.Function(args, scope))));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
 	return result;
@@ -1034,7 +1034,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		args.push_back(std::make_shared<object>(*result));		
-		var x = *(function.Function(args, scope));
+		var x = *LispInterpreter::ValueOf(function.Function(args, scope));
 		result = std::make_shared<LispVariant>(x);
 	}
 	return result;
@@ -1335,7 +1335,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 {
 	CheckArgs(LispEnvironment::Apply, 2, args, scope);
 
-	var fcn = LispInterpreter::EvalAst(args[0], scope);
+	var fcn = LispInterpreter::EvalAstToValue(args[0], scope);
 
 	const LispVariant & arguments = args[1]->ToLispVariantRef();
 
@@ -1479,7 +1479,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 	var result = initial;
 	for(var arg : args)
 	{
-		bool value = LispInterpreter::EvalAst(arg, scope)->BoolValue();
+		bool value = LispInterpreter::EvalAstToValue(arg, scope)->BoolValue();
 		result = func(result, value);
 		if (initial)
 		{ 
@@ -1530,7 +1530,7 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 	var symbol = EvalArgIfNeeded(args[0], scope);
 	scope->NeedsLValue = originalNeedsLValue;
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	if (symbol->IsLValue())
 	{
 		std::function<void(std::shared_ptr<object>)> action = symbol->Value->ToSetterAction();
@@ -1599,7 +1599,7 @@ std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isS
 			if (value.IsList())
 			{
 				std::shared_ptr<object> pObj = std::make_shared<object>(value.ListValueRef());
-				return LispInterpreter::EvalAst(pObj, scope)->Value;
+				return LispInterpreter::EvalAstToValue(pObj, scope)->Value;
 			}
 			else
 			{
@@ -1664,7 +1664,7 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAst(item2, scope);
+				var evalResult = LispInterpreter::EvalAstToValue(item2, scope);
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
@@ -1726,7 +1726,7 @@ static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<ob
 		CheckArgs(If, -1, args, scope);
 	}
 
-	var passed = LispInterpreter::EvalAst(args[0], scope)->BoolValue();
+	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
 	return LispInterpreter::EvalAst(passed ? args[1] : elseCode, scope);
 }
@@ -1736,7 +1736,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 	CheckArgs(While, 2, args, scope);
 
 	var result = std::make_shared<LispVariant>();
-	var condition = LispInterpreter::EvalAst(args[0], scope);
+	var condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	while (condition->ToBool())
 	{
 		result = LispInterpreter::EvalAst(args[1], scope);
@@ -1744,7 +1744,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 		{
 			break;
 		}
-		condition = LispInterpreter::EvalAst(args[0], scope);
+		condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	}
 	return result;
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index e9641d3..c91e2eb 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -175,7 +175,7 @@ namespace CppLisp
 		{
 			var needEvaluation = (arrAstWithResolvedValues[i]->IsList() /*is IEnumerable<object>*/) && !functionWrapper.IsSpecialForm();
 
-			var result = needEvaluation ? std::make_shared<object>(*EvalAst(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
+			var result = needEvaluation ? std::make_shared<object>(*EvalAstToValue(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 07bfaca..d6c1e28 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -73,6 +73,23 @@ namespace CppLisp
         /// <exception cref="System.Exception">Unexpected macro modus!</exception>
 		/*public*/ static std::shared_ptr<LispVariant> EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
 
+		/// <summary>
+        /// Returns the given result or the undefined value if there is no result (null),
+        /// example for an expression without a result: (if #f 1)
+        /// </summary>
+		/*public*/ static std::shared_ptr<LispVariant> ValueOf(std::shared_ptr<LispVariant> result)
+		{
+			return result.get() != null ? result : std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
+		}
+
+		/// <summary>
+        /// Evaluates the given ast in a context which needs a value (never returns null).
+        /// </summary>
+		/*public*/ static std::shared_ptr<LispVariant> EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
+		{
+			return ValueOf(EvalAst(ast, scope));
+		}
+
 #ifdef ENABLE_COMPILE_TIME_MACROS 
 
 		/*public*/ static std::shared_ptr<object> ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope);
-- 
2.43.0


From c3a8761314aa6ae4dfdf68373f3119e47b09b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 05/79] fix: a quote directly after a quote (''a, ,@'(1 2))
 swallowed the rest of the code

---
 CppLisp/CppLispInterpreter/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 79e31d8..39872f2 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -101,6 +101,12 @@ namespace CppLisp
 				{
 					current->push_back/*Add*/(std::make_shared<object>(object(*quote)));
 				}
+				else if (!isToplevel)
+				{
+					// the quoted expression is itself the item of a quote, like ''a or `'a
+					parseResult = std::make_shared<object>(*quote);
+					return i;
+				}
 			}
 			else if (token->Type == LispTokenType::UnQuote || token->Type == LispTokenType::UnQuoteSplicing)
 			{
-- 
2.43.0


From d096d7f30455e9b508adaadce1b8befb92d066cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 06/79] fix: parser crashed for a closing bracket without an
 open list and for a quote without an item

---
 CppLisp/CppLispInterpreter/Parser.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 39872f2..766fec8 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -71,6 +71,11 @@ namespace CppLisp
 			}
 			else if (token->Type == LispTokenType::ListEnd)
 			{
+				if (listStack.empty())
+				{
+					// closing bracket without a list to close, like ) or (')
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				var temp = current;
 				listStack.pop();
 				if (listStack.size() > 0)
@@ -153,7 +158,15 @@ namespace CppLisp
 			throw LispException(BracketsOutOfBalance, token, moduleName);
 		}
 
-		parseResult = std::make_shared<object>(*current);
+		if (current != null)
+		{
+			parseResult = std::make_shared<object>(*current);
+		}
+		else if (!isToplevel && startIndex > 0)
+		{
+			// the item for a quote or unquote is missing
+			throw LispException(BracketsOutOfBalance, tokens[startIndex - 1], moduleName);
+		}
 		return i;
 	}
 
-- 
2.43.0


From eb198dfa4ffbcdc2a6ecea035c2758beca7d09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 07/79] fix: an empty comment swallowed the rest of the code, a
 comment at the end of the code was tokenized twice

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 902e666..b6ad532 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -208,7 +208,7 @@ namespace CppLisp
 	{
 		string rest = code.Substring(i);
 		size_t pos = rest.IndexOf("\n", "StringComparison.InvariantCulture");
-		if (pos > 0)
+		if (pos != string::npos)
 		{
 			newIndex = i + pos;
 			return rest.Substring(0, pos + 1);
-- 
2.43.0


From 4d667efa95c807830cf2687b655b07a9e0ba8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 08/79] fix: a semicolon inside of a string was counted as a
 new line

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index b6ad532..49734e6 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -102,18 +102,17 @@ namespace CppLisp
 				{
 					currentToken += ch;
 				}
-				else if (isInSymbol)
-				{
-					addToken(currentToken, i, lineCount);
-					i = ProcessComment(code, i, lineCount, ch, addToken);
-				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					i = ProcessComment(code, i, lineCount, ch, addToken);
+					// comment ends always with new line
+					lineCount++;
 				}
 				wasLastBackslash = false;
-				// comment ends always with new line
-				lineCount++;
 			}
 			else if (ch == '\'' || ch == '`' || ch == ',')
 			{
-- 
2.43.0


From 5393fafec283fcf864a8d808021523ffb81c1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 09/79] fix: a symbol or number directly before a quote,
 unquote or string was lost

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 49734e6..868e86d 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -122,6 +122,10 @@ namespace CppLisp
 				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					if (code[i + 1] == '@')
 					{
 						// process unquotesplicing
@@ -152,6 +156,10 @@ namespace CppLisp
 				else
 				{
 					// start string
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					isInString = true;
 					currentToken = string::Empty;
 				}
-- 
2.43.0


From 1e386c11bd28873106aed2804d4390800d45f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 10/79] fix: number literals out of the range of int or double
 ended the interpreter with a foreign exception

---
 CppLisp/CppLispInterpreter/Token.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index be1e978..779f80b 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -26,6 +26,7 @@
 #include "Token.h"
 #include <string>
 #include <stdexcept>
+#include <cstdlib>
 
 const CppLisp::string CppLisp::LispToken::StringStart = "\"";
 const CppLisp::string CppLisp::LispToken::QuoteConst = "'";
@@ -54,6 +55,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	bool Double_TryParse(const string & txt, const string & /*NumberStyles_Any*/, const string & /*CultureInfo_InvariantCulture*/, double & doubleValue)
@@ -72,6 +77,13 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			// to large or to small for a double: the value is +-inf or the next representable value
+			char * end = null;
+			doubleValue = std::strtod(txt.c_str(), &end);
+			return *end == '\0';
+		}
 	}
 
 	LispToken::LispToken(const string & text, size_t start, size_t stop, size_t lineNo)
-- 
2.43.0


From 56eebfbb92e5d620618ce72596196b84e4651c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 11/79] fix: integer division and remainder by zero (and
 INT_MIN / -1) terminated the process with SIGFPE

---
 CppLisp/CppLispInterpreter/Variant.cpp | 13 +++++++++++++
 CppLisp/CppLispInterpreter/Variant.h   |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index c468ca3..b42c781 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -27,6 +27,7 @@
 #include "Exception.h"
 #include "cstypes.h"
 
+#include <limits>
 #include <math.h>
 
 namespace CppLisp
@@ -414,6 +415,16 @@ namespace CppLisp
 		throw CreateInvalidOperationException("*", *this, r);
 	}
 
+	void LispVariant::CheckIntDivision(const string & operation, int dividend, int divisor) const
+	{
+		if (divisor == 0 || (divisor == -1 && dividend == std::numeric_limits<int>::min()))
+		{
+			var exception = LispException(string::Format("Invalid integer division: {0} {1} {2}", std::to_string(dividend), operation, std::to_string(divisor)), 0);
+			exception.AddTokenInfos(Token);
+			throw exception;
+		}
+	}
+
 	LispVariant LispVariant::operator /(const LispVariant & r)
 	{
 		if (IsDouble() || r.IsDouble())
@@ -422,6 +433,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
+			CheckIntDivision("/", ToInt(), r.ToInt());
 			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / r.ToInt()));
 		}
 		throw CreateInvalidOperationException("/", *this, r);
@@ -435,6 +447,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
+			CheckIntDivision("%", ToInt(), r.ToInt());
 			return /*new*/ LispVariant(std::make_shared<object>(ToInt() % r.ToInt()));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
diff --git a/CppLisp/CppLispInterpreter/Variant.h b/CppLisp/CppLispInterpreter/Variant.h
index bd97a65..93ed5f1 100644
--- a/CppLisp/CppLispInterpreter/Variant.h
+++ b/CppLisp/CppLispInterpreter/Variant.h
@@ -393,6 +393,8 @@ namespace CppLisp
 		/*private*/ LispException CreateInvalidCastException(const string & name, const string & msg = "no") const;
 	    /*private*/ static LispException CreateInvalidOperationException(const string & operation, const LispVariant & l, const LispVariant & r);
 
+	    /*private*/ void CheckIntDivision(const string & operation, int dividend, int divisor) const;
+
         //#endregion
     };
 
-- 
2.43.0


From 41135c1e98565f8b99c005f533b08d03603051ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 12/79] fix: access to elements outside of a list
 (first/last/nth/rest of short lists) was undefined behaviour

---
 CppLisp/CppLispInterpreter/cstypes.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 1a390fd..62c32a4 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -27,6 +27,7 @@
 #define _CSTYPES_H
 
 #include "csstring.h"
+#include "csexception.h"
 
 #include <vector>
 #include <map>
@@ -71,6 +72,14 @@ namespace CppLisp
 			return std::vector<T>::size();
 		}
 
+		inline void CheckIndex(size_t index) const
+		{
+			if (index >= std::vector<T>::size())
+			{
+				throw LispExceptionBase("Index out of range");
+			}
+		}
+
 		inline const std::vector<T> & ToArray() const
 		{
 			return *this;
@@ -78,6 +87,7 @@ namespace CppLisp
 
 		inline const T & First() const
 		{
+			CheckIndex(0);
 			return std::vector<T>::front();
 		}
 
@@ -92,11 +102,13 @@ namespace CppLisp
 
 		inline const T & Last() const
 		{
+			CheckIndex(0);
 			return std::vector<T>::back();
 		}
 
 		inline const T ElementAt(size_t index) const
 		{
+			CheckIndex(index);
 			return (*this)[index];
 		}
 
@@ -112,13 +124,17 @@ namespace CppLisp
 
 		inline void Insert(int index, const T & elem)
 		{
+			if (index < 0 || (size_t)index > std::vector<T>::size())
+			{
+				throw LispExceptionBase("Index out of range");
+			}
 			std::vector<T>::insert(this->begin() + index, elem);
 		}
 
 		IEnumerable<T> Skip(int skipNoOfElements)
 		{
 			IEnumerable<T> temp(*this);
-			for (int i = 0; i < skipNoOfElements; i++)
+			for (int i = 0; i < skipNoOfElements && !temp.empty(); i++)
 			{
 				temp.erase(temp.begin());
 			}
-- 
2.43.0


From 9319c99e017e2c60c4cbaadad394f51cd6f23f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 13/79] fix: slice, first, last, rest and nth of a string with
 a position behind the end ended the interpreter with a foreign exception

---
 CppLisp/CppLispInterpreter/csstring.cpp | 9 +++++++++
 CppLisp/CppLispInterpreter/csstring.h   | 5 +----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 981637b..a77b650 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -66,6 +66,15 @@ namespace CppLisp
 		return std::equal(txt.rbegin(), txt.rend(), rbegin());
 	}
 
+	string string::Substring(size_t offs, size_t length) const
+	{
+		if (offs > size())
+		{
+			throw LispExceptionBase("Start index of substring out of range");
+		}
+		return string(substr(offs, length));
+	}
+
 	string string::ToUpper() const
 	{
 		string temp = *this;
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 88499c9..760d8a0 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -137,10 +137,7 @@ namespace CppLisp
 			return compare(0, txt.length(), txt) == 0;
 		}
 
-		inline string Substring(size_t offs, size_t length = npos) const
-		{
-			return string(substr(offs, length));
-		}
+		string Substring(size_t offs, size_t length = npos) const;
 
 		inline string Replace(const string & searchTxt, const string & replaceTxt) const
 		{
-- 
2.43.0


From 509cd1ea81e39839f4a98109940cc570cb623323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 14/79] fix: search with position and length ignored the length
 and read behind the search text

---
 CppLisp/CppLispInterpreter/csstring.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 760d8a0..8fec857 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -157,7 +157,13 @@ namespace CppLisp
 
 		inline size_t IndexOf(const string & txt, size_t offset, size_t count) const
 		{
-			return find(txt.c_str(), offset, count);
+			// the text must be found completely inside of the count characters beginning with offset
+			size_t found = find(txt, offset);
+			if (found == npos || count < txt.size() || found - offset > count - txt.size())
+			{
+				return npos;
+			}
+			return found;
 		}
 
 		inline void Append(const string & txt)
-- 
2.43.0


From d8297772221dd9e374d439bb504c65e47b3f66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 15/79] fix: format replaced only the first occurrence of a
 placeholder and rescanned the inserted texts

---
 CppLisp/CppLispInterpreter/csstring.cpp | 82 ++++++++++---------------
 1 file changed, 31 insertions(+), 51 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index a77b650..1959f02 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -172,59 +172,39 @@ namespace CppLisp
 	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
 	{
 		const string ERR_MSG = "Not enough items for format string: " + txt;
-		bool found;
-		string temp = txt;
-		temp = ReplaceIn(temp, "{0}", arg1, found);
-		if (found && arg1 == NULL_STRING)
+		const string * args[] = { &arg1, &arg2, &arg3, &arg4, &arg5 };
+		string result;
+		// scan the format string once, texts which are inserted for a placeholder are never scanned again
+		for (size_t pos = 0; pos < txt.size(); pos++)
 		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{0,", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{1}", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{1,", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{2}", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{2,", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{3}", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{3,", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{4}", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{4,", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
+			// placeholders are: {n} or {n,width}
+			if (txt[pos] == '{' && pos + 2 < txt.size() && txt[pos + 1] >= '0' && txt[pos + 1] <= '4' && (txt[pos + 2] == '}' || txt[pos + 2] == ','))
+			{
+				const string & arg = *args[txt[pos + 1] - '0'];
+				size_t end = txt.find('}', pos + 2);
+				long width = 0;
+				bool valid = true;
+				if (end != npos && txt[pos + 2] == ',')
+				{
+					char * rest = 0;
+					width = strtol(txt.c_str() + pos + 3, &rest, 10);
+					valid = rest != txt.c_str() + pos + 3 && rest == txt.c_str() + end;
+				}
+				if (end != npos && valid)
+				{
+					if (arg == NULL_STRING)
+					{
+						throw LispExceptionBase(ERR_MSG);
+					}
+					std::string fill(labs(width) > (long)arg.size() ? labs(width) - arg.size() : 0, ' ');
+					result += width > 0 ? fill + arg : arg + fill;
+					pos = end;
+					continue;
+				}
+			}
+			result += txt[pos];
 		}
-		return temp;
+		return result;
 	}
 
     int string::CompareOrdinal(const string & a, const string & b)
-- 
2.43.0


From f21724cbd79a6f9fcc76ba14a13fffb4f476f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 16/79] fix: option -l= was rejected if any argument followed
 it

---
 CppLisp/CppLispInterpreter/fuel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 9baa8c8..d0de300 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -215,7 +215,8 @@ namespace CppLisp
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-		var libPath = std::vector<string>(std::find_if(args.begin(), args.end(), [](const string & v) -> bool { return v.StartsWith("-l="); }), args.end());
+		std::vector<string> libPath;
+		std::copy_if(args.begin(), args.end(), back_inserter(libPath), [](const string & v) -> bool { return v.StartsWith("-l="); });
 		if (libPath.size() > 0)
 		{
 			if (libPath.size() == 1)
-- 
2.43.0


From ba3d17bf51f935e40c3b1068e4adc567f65e5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 17/79] fix: option -e without a script crashed

---
 CppLisp/CppLispInterpreter/fuel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index d0de300..e57f883 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -211,7 +211,8 @@ namespace CppLisp
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
-			script = /*LispUtils.*/GetScriptFilesFromProgramArgs(args)[0]/*.FirstOrDefault()*/;
+			var scripts = /*LispUtils.*/GetScriptFilesFromProgramArgs(args);
+			script = scripts.size() > 0 ? scripts.front() : string::Empty;
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-- 
2.43.0


From dfa0576dcb081285e6bb89757ecc28f3d8a731b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 18/79] fix: options -t and --macro-expand crashed for scripts
 without a result

---
 CppLisp/CppLispInterpreter/fuel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index e57f883..1b6a590 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -29,6 +29,7 @@
 //using System.Reflection;
 
 #include "fuel.h"
+#include "Interpreter.h"
 
 #if defined( _WIN32 )
 #include <windows.h>
@@ -340,6 +341,8 @@ namespace CppLisp
 			result = Lisp::SaveEval(script, /*moduleName:*/ "cmdline", /*verboseErrorOutput:*/ false, /*tracing:*/ false, output, input, macroExpand);
 		}
 
+		// a script like (if #f 1) has no result
+		result = LispInterpreter::ValueOf(result);
 		if (macroExpand)
 		{
 			output->WriteLine(string("Macro expand: ") + result->ToString());
-- 
2.43.0


From 64be4e93d9122e56a831dfbe002ceabe3a121184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 19/79] fix: errors without a location were not reported at all

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 0b67c2a..34b8bbf 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -179,6 +179,12 @@ namespace CppLisp
 		}
 		catch (LispExceptionBase exc)
 		{
+			string errMsg = string::Format("\nError executing script.\n\n{0}", exc.Message);
+			std::cout << errMsg << std::endl;
+			if (outp != null)
+			{
+				outp->WriteLine(errMsg);
+			}
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
 		return result;
-- 
2.43.0


From a37e09805447ca6123661708f5354c779cb37179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 20/79] fix: arguments behind a spliced list (,@l) were dropped
 or left uninitialized

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index c91e2eb..68a15fd 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -169,7 +169,8 @@ namespace CppLisp
 #endif
 
 		// evaluate arguments, but allow recursive lists
-		std::vector<std::shared_ptr<object>> arguments(astWithResolvedValues->Count() - 1); // = new object[astWithResolvedValues->Count() - 1];
+		std::vector<std::shared_ptr<object>> arguments;
+		arguments.reserve(astWithResolvedValues->Count() - 1);
 		const std::vector<std::shared_ptr<object>> & arrAstWithResolvedValues = astWithResolvedValues->ToArray();
 		for (size_t i = 1; i < astWithResolvedValues->Count(); i++)
 		{
@@ -185,18 +186,16 @@ namespace CppLisp
 				if (variant.IsUnQuoted == LispUnQuoteModus::_UnQuoteSplicing && variant.IsList())
 				{
 					var lst = variant.ListValueRef();
-					arguments.resize(arguments.size() + lst.size() - 1);
 					for(var elem : lst)
 					{
-						arguments[i - 1] = elem;
-						i++;
+						arguments.push_back(elem);
 					}
 
-					break;
+					continue;
 				}
 			}
 
-			arguments[i - 1] = result;
+			arguments.push_back(result);
 		}
 
 #ifndef _DISABLE_DEBUGGER
-- 
2.43.0


From c0fcd3b57779d5bf3b0d0bf8ab560349cd07e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 21/79] fix: a local variable of an enclosing function was
 hidden by a global variable with the same name when read in a closure

---
 CppLisp/CppLispInterpreter/Scope.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6935321..f083708 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -102,17 +102,17 @@ namespace CppLisp
 			result = item->second;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in global scope
-		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
+		// then try to resolve in closure chain scope(s)
+		else if (IsInClosureChain(name, foundClosureScope, &value))
 		{
-			//result = (*GlobalScope)[name];
+			//result = (*foundClosureScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in closure chain scope(s)
-		else if (IsInClosureChain(name, foundClosureScope, &value))
+		// then try to resolve in global scope
+		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
 		{
-			//result = (*foundClosureScope)[name];
+			//result = (*GlobalScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-- 
2.43.0


From 1a660a2ad0d9feaf3268f67f1d3f3f50c9272ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 22/79] fix: using a value as list or dictionary which is none
 (dict-set 1 2 3, define-macro with non lists) was undefined behaviour

---
 CppLisp/CppLispInterpreter/csobject.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 45d3e88..03f111d 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -382,11 +382,19 @@ namespace CppLisp
 
 	Dictionary<LispVariant, std::shared_ptr<object>> & object::ToDictionary()
 	{
+		if (!IsDictionary())
+		{
+			throw LispExceptionBase("Dictionary expected");
+		}
 		return *(m_Data.pDictionary);
 	}
 
 	const Dictionary<LispVariant, std::shared_ptr<object>> & object::ToDictionary() const
 	{
+		if (!IsDictionary())
+		{
+			throw LispExceptionBase("Dictionary expected");
+		}
 		return *(m_Data.pDictionary);
 	}
 
@@ -505,11 +513,19 @@ namespace CppLisp
 
 	const IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectRef() const
 	{
+		if (!IsList())
+		{
+			throw LispExceptionBase("List expected");
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
 	IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectNotConstRef()
 	{
+		if (!IsList())
+		{
+			throw LispExceptionBase("List expected");
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
-- 
2.43.0


From 530a8ee74d77849b92043d41ac5c57fd3875a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 23/79] fix: string literals in the body of a macro were
 replaced when equal to the name of a formal argument

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index b42c781..2821aaa 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -326,7 +326,7 @@ namespace CppLisp
 		if (other->IsLispVariant())
 		{
 			const LispVariant & otherVariant = other->ToLispVariantRef();
-			return Value->Equals(*(otherVariant.Value));
+			return IsSymbol() && otherVariant.IsSymbol() && Value->Equals(*(otherVariant.Value));
 		}
 		return false;
 	}
-- 
2.43.0


From 909390ecbe16e640e70a0d4556e89035baf9ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 24/79] fix: calling a macro with missing arguments read behind
 the end of the argument list

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 68a15fd..1d9e6d9 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -373,6 +373,11 @@ namespace CppLisp
 		/*List<object>*/std::shared_ptr<object> quotedRealArguments = std::make_shared<object>(lst); //  new List<object>() { new LispVariant(LispType.Symbol, LispEnvironment.Quote), realArguments };
 		expression = ReplaceSymbolWithValueInExpression(LispVariant(LispType::_Symbol, std::make_shared<object>("quoted-macro-args")), quotedRealArguments, expression, true, /*ref*/ replaced);
 
+		if (realArguments.Count() < formalArguments->Count())
+		{
+			throw LispException("Bad argument count in macro " + astAsList->First()->ToString(), scope.get());
+		}
+
 		for (var formalArgument : *formalArguments)
 		{
 			std::shared_ptr<object> value;
-- 
2.43.0


From 1c41c88c21ceff30e971d1d73817e13cd730eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 25/79] fix: macro arguments containing the name of another
 formal argument were replaced again

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 1d9e6d9..112241e 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -378,7 +378,17 @@ namespace CppLisp
 			throw LispException("Bad argument count in macro " + astAsList->First()->ToString(), scope.get());
 		}
 
+		// first replace all formal arguments with unique placeholders and then the placeholders with the real arguments,
+		// otherwise symbols in the real arguments would be mixed up with the names of the other formal arguments
+		std::vector<LispVariant> placeholders;
 		for (var formalArgument : *formalArguments)
+		{
+			var placeholder = LispVariant(LispType::_Symbol, std::make_shared<object>(LispEnvironment::MetaTag + "macroarg" + std::to_string(placeholders.size()) + LispEnvironment::MetaTag));
+			expression = ReplaceSymbolWithValueInExpression(formalArgument->ToLispVariantRef(), std::make_shared<object>(placeholder), expression, false, /*ref*/ replaced);
+			placeholders.push_back(placeholder);
+		}
+
+		for (var placeholder : placeholders)
 		{
 			std::shared_ptr<object> value;
 			auto elem = (*astAsList)[i];
@@ -390,7 +400,7 @@ namespace CppLisp
 			{
 				value = std::make_shared<object>(LispVariant((*astAsList)[i]));
 			}
-			expression = ReplaceSymbolWithValueInExpression(/*(LispVariant)*/formalArgument->ToLispVariantRef(), value, expression, false, /*ref*/ anyMacroReplaced);
+			expression = ReplaceSymbolWithValueInExpression(placeholder, value, expression, false, /*ref*/ anyMacroReplaced);
 			i++;
 		}
 		return expression;
-- 
2.43.0


From 3a1d499cd17d527b3d114ffbb006a2a29fa96e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 26/79] fix: results of compile time macros which are no lists
 (numbers, strings, nil) lost their type

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 112241e..b79a296 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -242,7 +242,7 @@ namespace CppLisp
 
 	std::shared_ptr<object> LispInterpreter::ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope, /*ref*/ bool & anyMacroReplaced)
 	{
-		if (ast == null || ast->IsLispVariant())
+		if (ast == null || !ast->IsList())
 		{
 			return ast;
 		}
@@ -284,7 +284,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAst(astWithReplacedArguments, globalScope)->Value);
+				var processedAst = ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*EvalAstToValue(astWithReplacedArguments, globalScope)));
 				return std::make_shared<object>(*processedAst);
 			}
 		}
-- 
2.43.0


From 2931cbb2928288444dffabfebf0518054904612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 27/79] fix: definition of a compile time macro as argument or
 body of another macro crashed

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++++
 CppLisp/CppLispInterpreter/Interpreter.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 263496f..e2bf63f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1572,6 +1572,10 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 	{
 		// allow macros in macros --> recursive call for ExpandMacros()
 		std::shared_ptr<object> result = LispInterpreter::ExpandMacros(std::make_shared<object>(*LispEnvironment::GetExpression(args[2])), scope);
+		if (result == null)
+		{
+			throw LispException("Expression expected in " + DefineMacroExpand, scope.get());
+		}
 		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result->ToEnumerableOfObjectRef())));
 	}
 
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index b79a296..9a47407 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -395,6 +395,11 @@ namespace CppLisp
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
 				value = /*elem;*/ ExpandMacros((*astAsList)[i], scope, /*ref*/ anyMacroReplaced);
+				if (value == null)
+				{
+					// the argument is a definition of a compile time macro, which is removed from the code
+					value = std::make_shared<object>(LispVariant());
+				}
 			}
 			else
 			{
-- 
2.43.0


From 6b131ebeb75f00e5b6ce7e1939c7a17457d3c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 28/79] fix: return, trace and sleep without an argument
 crashed

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e2bf63f..b5b7382 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -383,6 +383,8 @@ static std::shared_ptr<LispVariant> NeedLValue(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("trace", 1, args, scope);
+
 	var status = args[0]->ToLispVariantRef();
 	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
@@ -431,8 +433,10 @@ static std::shared_ptr<LispVariant> CurrentTickCount(const std::vector<std::shar
 	return FuelFuncWrapper0<int>(args, scope, "tickcount", []() -> int { return (int)GetTickCount(); });
 }
 
-static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("sleep", 1, args, scope);
+
 	var timeInMs = ((LispVariant)args[0]).ToInt();
 	std::this_thread::sleep_for(std::chrono::milliseconds(timeInMs));
 	return std::make_shared<LispVariant>(LispVariant());
@@ -607,6 +611,8 @@ static std::shared_ptr<LispVariant> Nop(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> Return(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("return", 1, args, scope);
+
 	scope->IsInReturn = true;
 	return std::make_shared<LispVariant>(LispVariant(args[0]));
 }
-- 
2.43.0


From 5855047407813f59b3a8cd2dcd34e6c11dc8c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 29/79] fix: args, argscount and arg crashed outside of a
 function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b5b7382..749b006 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1311,16 +1311,25 @@ static std::shared_ptr<LispVariant> ConvertToString(const std::vector<std::share
 	return std::make_shared<LispVariant>(LispType::_String, std::make_shared<object>(value));
 }
 
+static const IEnumerable<std::shared_ptr<object>> & GetArgsOfFunction(const string & name, std::shared_ptr<LispScope> scope)
+{
+	if (!scope->ContainsKey(ArgsMeta))
+	{
+		throw LispException(name + " is only available inside of a function", scope.get());
+	}
+	return (*scope)[ArgsMeta]->ToListRef();
+}
+
 static std::shared_ptr<LispVariant> ArgsCountFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)(*scope)[ArgsMeta]->ToListRef().Count();  });
+	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)GetArgsOfFunction("argscount", scope).Count();  });
 }
 
 static std::shared_ptr<LispVariant> ArgsFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("args", 0, args, scope);
 
-	var array = (*scope)[ArgsMeta]->ToListRef()/*.ToArray()*/;
+	var array = GetArgsOfFunction("args", scope)/*.ToArray()*/;
 	return std::make_shared<LispVariant>(std::make_shared<object>(array));
 }
 
@@ -1329,7 +1338,7 @@ static std::shared_ptr<LispVariant> ArgFcn(const std::vector<std::shared_ptr<obj
 	CheckArgs("arg", 1, args, scope);
 
 	var index = args[0]->ToLispVariantRef().IntValue();
-	const IEnumerable<std::shared_ptr<object>> & array = (*scope)[ArgsMeta]->ToListRef();
+	const IEnumerable<std::shared_ptr<object>> & array = GetArgsOfFunction("arg", scope);
 	if (index >= 0 && index < (int)array.size())
 	{
 		return std::make_shared<LispVariant>(array[index]);
-- 
2.43.0


From 292163954f6c32038420a8d9ca7a62d5896e32ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 30/79] fix: trace output and gettrace inside of a function
 crashed

---
 CppLisp/CppLispInterpreter/Environment.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 749b006..9e535db 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -119,6 +119,13 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 	return ofs.good();
 }
 
+static string GetTraceBuffer(std::shared_ptr<LispScope> scope)
+{
+	std::shared_ptr<object> buffer;
+	// the scope of a function has no trace buffer before the first output is traced
+	return scope->ContainsKey(Tracebuffer, &buffer) ? buffer->ToString() : string::Empty;
+}
+
 static string GetStringRepresentation(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & separator = " ")
 {
 	var text = string::Empty;
@@ -132,8 +139,7 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 	}
 	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
 	{
-		var buffer = /*(StringBuilder)*/(*scope)[Tracebuffer];
-		string temp = buffer->ToString();
+		string temp = GetTraceBuffer(scope);
 		temp += text;
 		(*scope)[Tracebuffer] = std::make_shared<object>(temp);
 		//old: buffer.Append(text);
@@ -392,7 +398,7 @@ static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> scope)
 {
-	string buffer = (*scope)[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
+	string buffer = GetTraceBuffer(scope); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
 	return std::make_shared<LispVariant>(std::make_shared<object>(buffer));
 }
 
-- 
2.43.0


From 2e3e14a5d42052fad0aa5053f3b401dd1035350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 31/79] fix: doc and searchdoc failed for names of variables
 and crashed if macros were defined

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 CppLisp/CppLispInterpreter/Scope.cpp       | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 9e535db..e4a7fa2 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -326,7 +326,7 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
 			// search for functions in all loaded modules
-			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
+			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef();
 			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
 			{
 				help += module.second->GetLispScopeRef()->GetFunctionsHelpFormated(item->ToString(), select);
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index f083708..01fc683 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -253,6 +253,10 @@ namespace CppLisp
 		//foreach (var key in Keys)
 		for (const string & key : GetKeys())
 		{
+			if (!(*this)[key]->ToLispVariantRef().IsFunction())
+			{
+				continue;
+			}
 			if (select != null)
 			{
 				if (select(key, functionName))
-- 
2.43.0


From e9a7f7e8f15d1bcbd0e06800fd3cd543168faceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 32/79] fix: int and float of values without a numeric meaning
 returned the number 0 instead of undefined

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e4a7fa2..4133bd6 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -750,7 +750,7 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1 : 0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -774,7 +774,7 @@ static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<ob
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1.0 : 0.0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 31850ffc4981f62c9127914f03b2f60444548cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 33/79] fix: parse-float accepted texts with trailing garbage

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 4133bd6..36bfee6 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -720,7 +720,13 @@ static std::shared_ptr<LispVariant> ParseFloat(const std::vector<std::shared_ptr
 	double value;
 	try
 	{
-		value = std::stod(((LispVariant)args[0]).ToString());
+		size_t idx = 0;
+		string s = ((LispVariant)args[0]).ToString();
+		value = std::stod(s, &idx);
+		if (idx < s.size())
+		{
+			throw LispExceptionBase("format error");
+		}
 	}
 	catch (...)
 	{
-- 
2.43.0


From c7d0e94822a79a79ef0ddb33443a4f72b6c460bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 34/79] fix: setf of an element behind the end of a list wrote
 to foreign memory

---
 CppLisp/CppLispInterpreter/Environment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 36bfee6..67be167 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1123,6 +1123,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 			{ 
 				var vl = listValue->ToLispVariantNotConstRef();
 				IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+				container.CheckIndex(0);
 				container[0] = newValue;
 			};
 
@@ -1153,6 +1154,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			container.CheckIndex(0);
 			container[container.Count()-1] = newValue;
 		};
 
@@ -1197,6 +1199,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			container.CheckIndex(index);
 			container[index] = newValue;
 		};
 
-- 
2.43.0


From be3fd49046e86b887fe91176fcb5753f552d568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 35/79] fix: dictionary keys of different types (0 and "abc", 1
 and "1") collided or broke the order of the keys

---
 CppLisp/CppLispInterpreter/Variant.cpp | 33 ++++++++++++++++++++++++++
 CppLisp/CppLispInterpreter/Variant.h   | 18 ++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 2821aaa..4d02f0e 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -28,6 +28,8 @@
 #include "cstypes.h"
 
 #include <limits>
+#include <cmath>
+#include <functional>
 #include <math.h>
 
 namespace CppLisp
@@ -530,6 +532,37 @@ namespace CppLisp
 		throw CreateInvalidOperationException("==", l, r);
 	}
 
+	bool LispVariant::KeyLess(const LispVariant & l, const LispVariant & r)
+	{
+		// strings are followed by numbers and then by all other types
+		var rank = [](const LispVariant & v) -> int { return v.IsString() ? -2 : (v.IsNumber() ? -1 : (int)v.Type); };
+		if (rank(l) != rank(r))
+		{
+			return rank(l) < rank(r);
+		}
+		if (l.IsNumber())
+		{
+			double left = l.ToDouble();
+			double right = r.ToDouble();
+			// all NaN values are equal and less than all other numbers
+			return std::isnan(left) || std::isnan(right) ? std::isnan(left) && !std::isnan(right) : left < right;
+		}
+		if (l.IsBool())
+		{
+			return l.BoolValue() < r.BoolValue();
+		}
+		if (l.IsString() || l.IsSymbol())
+		{
+			return l.StringValue().compare(r.StringValue()) < 0;
+		}
+		if (l.IsNil() || l.IsUndefined())
+		{
+			return false;
+		}
+		// all other values (lists, functions, dictionaries) may be changed: use the identity
+		return std::less<object *>()(l.Value.get(), r.Value.get());
+	}
+
 	LispType LispVariant::TypeOf(std::shared_ptr<object> obj)
 	{
 		if (obj->IsInt())
diff --git a/CppLisp/CppLispInterpreter/Variant.h b/CppLisp/CppLispInterpreter/Variant.h
index 93ed5f1..53fa814 100644
--- a/CppLisp/CppLispInterpreter/Variant.h
+++ b/CppLisp/CppLispInterpreter/Variant.h
@@ -357,6 +357,12 @@ namespace CppLisp
 
 		/*public*/ void Add(std::shared_ptr<object>  value);
 
+		/// <summary>
+		/// Total order of all values, used for the keys of dictionaries.
+		/// Numbers are ordered by their value, values of other types are always different from values of another type.
+		/// </summary>
+		static bool KeyLess(const LispVariant & l, const LispVariant & r);
+
 		bool operator==(const LispVariant & other) const;
 		bool operator!=(const LispVariant & other) const;
 
@@ -410,4 +416,16 @@ namespace CppLisp
     }
 }
 
+namespace std
+{
+	template <>
+	struct less<CppLisp::LispVariant>
+	{
+		bool operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const
+		{
+			return CppLisp::LispVariant::KeyLess(l, r);
+		}
+	};
+}
+
 #endif
-- 
2.43.0


From 1c58b1532dcd6c7b107db6e16f116e6399b4ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 36/79] fix: output of a dictionary with a key without a value,
 like nil, crashed

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 4d02f0e..3cbf560 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -777,7 +777,7 @@ namespace CppLisp
 					result += ", ";
 				}
 
-				result += "[" + GetNativeObjectStringRepresentation(element.first.Value) + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
+				result += "[" + element.first.ToStringDebugger() + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
 			}
 
 			result = "{ " + result + " }";
-- 
2.43.0


From 2a6fbb47c8219b5ce12888ceee69e69385c3d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 37/79] fix: dictionaries lost the type of values (nil,
 symbols, dictionaries) and dict-contains-value compared values of different
 types

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 CppLisp/CppLispInterpreter/Variant.cpp     | 3 ++-
 CppLisp/CppLispInterpreter/csobject.cpp    | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 67be167..74f882e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1430,7 +1430,7 @@ static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<ob
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
-	dict[key] = value->Value;
+	dict[key] = std::make_shared<object>(*value);
 
 	return value;
 }
@@ -1499,7 +1499,7 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
 	var value = args[1]->ToLispVariant();
-	var result = dict.ContainsValue(value->Value);
+	var result = dict.ContainsValue(std::make_shared<object>(*value));
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(result));
 }
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 3cbf560..3e0c24b 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -831,7 +831,8 @@ namespace CppLisp
 
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
-		return *Value == *(r.Value);
+		// values of different types are never equal and types without a value (like nil) are equal to each other
+		return Type == r.Type && (Value == r.Value || (Value != null && r.Value != null && *Value == *(r.Value)));
 	}
 
 	bool LispVariant::operator!=(const LispVariant & other) const
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 03f111d..4257cea 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -153,7 +153,7 @@ namespace CppLisp
 				case __String:
 					return ToString() == other.ToString();
 				case __List:
-					return ToListRef() == other.ToListRef();
+					return ToListRef().SequenceEqual(other.ToListRef());
 				case __Function:
 					return false;
 				case __Symbol:
@@ -168,7 +168,7 @@ namespace CppLisp
 				case __LispToken:
 					return ToString() == other.ToString();
 				case __IEnumerableOfObject:
-					return ToListRef() == other.ToListRef();
+					return ToListRef().SequenceEqual(other.ToListRef());
 				case __VoidPtr:
 					return true;
 				case __LispScope:
-- 
2.43.0


From 85281f52fb31b9c8a164b286cd38eee3cc6935a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 38/79] fix: quasiquote did not process unquotes nested in a
 list with two elements

---
 CppLisp/CppLispInterpreter/Environment.cpp | 29 +++++++++-------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 74f882e..3cecc92 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1704,32 +1704,27 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 				return std::make_shared<object>(*evalResult);
 			}
 		}
-		result.Add(item1);
-		result.Add(item2);
 	}
-	else
+	for (var itm : expr)
 	{
-		for (var itm : expr)
+		if (itm->IsIEnumerableOfObject() || itm->IsList())
 		{
-			if (itm->IsIEnumerableOfObject() || itm->IsList())
+			bool tempSplicing = false;
+			var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
+			if (tempSplicing)
 			{
-				bool tempSplicing = false;
-				var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
-				if (tempSplicing)
-				{
-					const LispVariant & variant = res->ToLispVariantRef();
-					result.AddRange(variant.ListValueRef());
-				}
-				else
-				{
-					result.Add(res);
-				}
+				const LispVariant & variant = res->ToLispVariantRef();
+				result.AddRange(variant.ListValueRef());
 			}
 			else
 			{
-				result.Add(itm);
+				result.Add(res);
 			}
 		}
+		else
+		{
+			result.Add(itm);
+		}
 	}
 	return std::make_shared<object>(result);
 }
-- 
2.43.0


From ca8dd531100f39e7e641594b74e13e1caf9dbde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 39/79] fix: errors inside of functions lost their position and
 left the scope of the function on the call stack

---
 CppLisp/CppLispInterpreter/Environment.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 3cecc92..e0aa5ad 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1883,10 +1883,11 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		{
 			ret = LispInterpreter:: EvalAst(args[1], childScope);
 		}
-		catch (LispStopDebuggerException & exc)
+		catch (LispStopDebuggerException &)
 		{
 			// forward a debugger stop exception to stop the debugger loop
-			throw exc;
+			localScope->PopNextScope();
+			throw;
 		}
 		catch (LispExceptionBase & ex)
 		{
@@ -1903,7 +1904,9 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
 			}
 
-			throw ex;
+			// forward the original exception (with the infos about the position)
+			localScope->PopNextScope();
+			throw;
 		}
 		localScope->PopNextScope();
 		return ret;
-- 
2.43.0


From a42a48c7183a5734ec8ce218c6e5d432b0f046b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 40/79] fix: errors in setf, rval, evalstr and doc left the
 scope in a wrong state for the following evaluations

---
 CppLisp/CppLispInterpreter/Environment.cpp | 53 ++++++++++++++++------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e0aa5ad..b82587e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -119,6 +119,29 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 	return ofs.good();
 }
 
+// restores the original value of a variable at the end of the current block, also in case of an exception
+template <class T>
+class ValueRestorer
+{
+public:
+	explicit ValueRestorer(T & variable)
+		: m_Variable(variable), m_OriginalValue(variable)
+	{
+	}
+
+	~ValueRestorer()
+	{
+		m_Variable = m_OriginalValue;
+	}
+
+private:
+	ValueRestorer(const ValueRestorer &);
+	ValueRestorer & operator=(const ValueRestorer &);
+
+	T & m_Variable;
+	T m_OriginalValue;
+};
+
 static string GetTraceBuffer(std::shared_ptr<LispScope> scope)
 {
 	std::shared_ptr<object> buffer;
@@ -309,11 +332,10 @@ static std::shared_ptr<LispVariant> Help(const std::vector<std::shared_ptr<objec
 static std::shared_ptr<LispVariant> DumpDocumentation(std::shared_ptr<LispScope> scope, Action dump)
 {
 	//string text; // var text = new StringBuilder();
-	var tempOutputWriter = scope->GlobalScope->Output;
+	ValueRestorer<std::shared_ptr<TextWriter>> restorer(scope->GlobalScope->Output);
 	scope->GlobalScope->Output = std::make_shared<TextWriter>(true); // StringWriter(text);
 	dump();
 	string text = scope->GlobalScope->Output->GetContent();
-	scope->GlobalScope->Output = tempOutputWriter;
 	return std::make_shared<LispVariant>(std::make_shared<object>(text));
 }
 
@@ -1293,11 +1315,10 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 {
 	CheckArgs("rval", 1, args, scope);
 
-	var originalLValue = scope->NeedsLValue;
+	// restore the original value also if the evaluation fails
+	ValueRestorer<bool> restorer(scope->NeedsLValue);
 	scope->NeedsLValue = false;
-	var value = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalLValue;
-	return value;
+	return EvalArgIfNeeded(args[0], scope);
 }
 
 static std::shared_ptr<LispVariant> SymbolFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1408,12 +1429,11 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	CheckArgs("evalstr", 1, args, scope);
 
 	const LispVariant & variant = args[0]->ToLispVariantRef();
-	var tempModuleName = scope->ModuleName;
+	// restore the original values also if the evaluation fails
+	ValueRestorer<string> moduleNameRestorer(scope->ModuleName);
+	ValueRestorer<bool> isInEvalRestorer(scope->IsInEval);
 	scope->IsInEval = true;
-	var result = Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
-	scope->IsInEval = false;
-	scope->ModuleName = tempModuleName;
-	return result;
+	return Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
 }
 
 static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1555,10 +1575,13 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 {
 	CheckArgs(Setf, 2, args, scope);
 
-	var originalNeedsLValue = scope->NeedsLValue;
-	scope->NeedsLValue = true;
-	var symbol = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalNeedsLValue;
+	std::shared_ptr<LispVariant> symbol;
+	{
+		// restore the original value also if the evaluation fails
+		ValueRestorer<bool> restorer(scope->NeedsLValue);
+		scope->NeedsLValue = true;
+		symbol = EvalArgIfNeeded(args[0], scope);
+	}
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
 	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	if (symbol->IsLValue())
-- 
2.43.0


From b23f26ce093b895f80e171169ff4c201cd668a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 41/79] fix: setf of a place returned by a function failed
 inside of functions

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b82587e..a3b02e6 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1899,7 +1899,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 
 		// save the current call stack to resolve variables in closures
 		childScope->ClosureChain = scope;
-		childScope->NeedsLValue = scope->NeedsLValue;     // support setf in recursive calls
+		childScope->NeedsLValue = localScope->NeedsLValue;     // support setf in recursive calls
 
 		std::shared_ptr<LispVariant> ret;
 		try
-- 
2.43.0


From bba13c5e3ed2b36c44ba8647efef632f5dfc81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 42/79] fix: lambdas defined after a defn got the signature and
 documentation of the defn

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index a3b02e6..4145546 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2014,6 +2014,9 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 {
 	CheckArgs(name, 3, args, scope);
 
+	// the informations at the scope are only valid for this function
+	ValueRestorer<std::shared_ptr<Tuple<string, string>>> userDocRestorer(scope->UserDoc);
+	ValueRestorer<std::shared_ptr<object>> userDataRestorer(scope->UserData);
 	UpdateDocumentationInformationAtScope(args, scope);
 
 	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
@@ -2023,7 +2026,6 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 	tempArgs.push_back(args[1]);
 	tempArgs.push_back(args[2]);
 	var resultingFcn = fn.Function(tempArgs, scope);
-	scope->UserData = null;
 
 	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
 	std::vector<std::shared_ptr<object>> tempArgs2;
-- 
2.43.0


From 148e3e6bd7b1bc71e564090eb466f190f66dc7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 43/79] fix: a return of a previous evaluation in a session
 ended the following evaluations

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 34b8bbf..30575c9 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -120,6 +120,11 @@ namespace CppLisp
 		currentScope->Output = outp != null ? outp : (scope != null ? scope->Output : std::make_shared<TextWriter>());
 		currentScope->Input = inp != null ? inp : (scope != null ? scope->Input : std::make_shared<TextReader>());
 		RegisterNativeObjects(/*nativeItems,*/ *currentScope);
+		if (!currentScope->IsInEval)
+		{
+			// a return of a previous evaluation must not end this evaluation
+			currentScope->IsInReturn = false;
+		}
 		size_t offset = 0;
 		string code = /*LispUtils.*/DecorateWithBlock(lispCode, /*out*/ offset);
 		var ast = LispParser::Parse(code, offset, currentScope);
-- 
2.43.0


From 6edee3d93f972b239f740cad27db73f3a3429a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 44/79] fix: a failing import left the scope of the module on
 the call stack

---
 CppLisp/CppLispInterpreter/Environment.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 4145546..874717a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -621,7 +621,15 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			var importScope = std::make_shared<LispScope>("import " + fileName, scope->GlobalScope, std::make_shared<string>(fileName), scope->Output, scope->Input);
 			scope->PushNextScope(importScope);
 
-			result = Lisp::Eval(code, importScope, fileName);
+			try
+			{
+				result = Lisp::Eval(code, importScope, fileName);
+			}
+			catch (...)
+			{
+				scope->PopNextScope();
+				throw;
+			}
 
 			// add new module to modules scope
 			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
-- 
2.43.0


From c54932f6b653bb03f72f84ae2de54bb495165e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 45/79] fix: debugger crashed for expressions without a result
 and for errors in functions without a current position

---
 CppLisp/CppLispDebugger/Debugger.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 01deeef..bbbd578 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -242,7 +242,7 @@ namespace CppLisp
 				try
 				{
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
-					debugger->Output->WriteLine("result={0}", result->ToString());
+					debugger->Output->WriteLine("result={0}", LispInterpreter::ValueOf(result)->ToString());
 					interactiveScript += cmd + "\n";
 				}
 				catch (LispExceptionBase & ex)
@@ -264,10 +264,12 @@ namespace CppLisp
 		if (currentAst != null)
 		{
 			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
-			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
-			var stopPos = initialTopScope != null ? initialTopScope->CurrentToken->StopPos : 0;
+			// there is no current token before the first function is called in a scope
+			var currentToken = initialTopScope != null ? initialTopScope->CurrentToken : null;
+			var startPos = currentToken != null ? currentToken->StartPos : 0;
+			var stopPos = currentToken != null ? currentToken->StopPos : 0;
 			var moduleName = initialTopScope != null ? initialTopScope->ModuleName : "?";
-			var tokenTxt = initialTopScope != null ? initialTopScope->CurrentToken->ToString() : "?";
+			var tokenTxt = currentToken != null ? currentToken->ToString() : "?";
 			Output->WriteLine("--> " + (*((*currentAst).begin()))->ToString()/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
 		}
 		InteractiveLoop(this, initialTopScope, startedFromMain, tracing, outp, inp);
-- 
2.43.0


From d9a0abc8ce771c97d26ebd536967307a987fb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 46/79] fix: a conditional breakpoint in the line of its own
 condition crashed the debugger, conditions changed the state of the program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 30 +++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index bbbd578..5b49cb5 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -36,6 +36,31 @@ const string LispDebugger::Prompt = /*Lisp::Name*/string("FUEL(isp)") + "> ";
 
 const string LispDebugger::DbgPrompt = /*Lisp::Name*/string("FUEL(isp)") + "-DBG> ";
 
+// restores the state of the debugged program, which is changed by an evaluation of the debugger in the scope of the program
+class DebuggeeStateRestorer
+{
+public:
+	DebuggeeStateRestorer(std::shared_ptr<LispScope> scope)
+		: m_Scope(scope), m_CurrentToken(scope->CurrentToken), m_IsInReturn(scope->IsInReturn), m_Tracing(scope->Tracing), m_Debugger(scope->GlobalScope->Debugger)
+	{
+	}
+
+	~DebuggeeStateRestorer()
+	{
+		m_Scope->CurrentToken = m_CurrentToken;
+		m_Scope->IsInReturn = m_IsInReturn;
+		m_Scope->Tracing = m_Tracing;
+		m_Scope->GlobalScope->Debugger = m_Debugger;
+	}
+
+private:
+	std::shared_ptr<LispScope> m_Scope;
+	std::shared_ptr<LispToken> m_CurrentToken;
+	bool m_IsInReturn;
+	bool m_Tracing;
+	ILispDebugger * m_Debugger;
+};
+
 extern "C" CppLisp::ILispDebugger * create_debugger()
 {
 	return new CppLisp::LispDebugger();
@@ -359,8 +384,11 @@ namespace CppLisp
 				{
 					try
 					{
+						// evaluate the condition without the debugger, otherwise the breakpoint could be hit again by its own condition
+						DebuggeeStateRestorer restorer(scope);
+						scope->GlobalScope->Debugger = null;
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-						return result->BoolValue();
+						return LispInterpreter::ValueOf(result)->BoolValue();
 					}
 					catch (...)
 					{
-- 
2.43.0


From 353501ecaa0a7c1baf514a90ae970670b9d71f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 47/79] fix: evaluating an expression at the prompt of the
 debugger changed the current position and the state of the program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 5b49cb5..4dda551 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -266,6 +266,7 @@ namespace CppLisp
 			{
 				try
 				{
+					DebuggeeStateRestorer restorer(currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
 					debugger->Output->WriteLine("result={0}", LispInterpreter::ValueOf(result)->ToString());
 					interactiveScript += cmd + "\n";
-- 
2.43.0


From 2f38fb2aa574498d27045f7fb4c93aeffee0b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 48/79] fix: the debugger could not show the code of an evalstr
 expression

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 4dda551..dedbc7c 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -193,7 +193,7 @@ namespace CppLisp
 				}
 				else
 				{
-					script = moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName.Substring(LispEnvironment::EvalStrTag.size() + moduleName.IndexOf(":", LispEnvironment::EvalStrTag.size())) : /*LispUtils*/ReadFileOrEmptyString(moduleName);
+					script = moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName.Substring(moduleName.IndexOf(":", LispEnvironment::EvalStrTag.size()) + 1) : /*LispUtils*/ReadFileOrEmptyString(moduleName);
 				}
 				// use the script given on command line if no valid module name was set
 				if (string::IsNullOrEmpty(script))
-- 
2.43.0


From d5f42f9d35bdac027633c78bf8567e24753e4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 49/79] fix: clear without a number in the debugger never ended
 at the end of the input

---
 CppLisp/CppLispDebugger/Debugger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index dedbc7c..fe90fc8 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -530,7 +530,8 @@ namespace CppLisp
 					{
 						answer = answer.ToUpper();
 					}
-				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
+					// an empty answer (also given at the end of the input) deletes nothing
+				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO" || answer.size() == 0));
 				if (answer == "Y" || answer == "YES")
 				{
 					debugger->ClearAllBreakpoints();
-- 
2.43.0


From 782a21d9ee5aabd26b84917ed89f42c376048f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 50/79] fix: the debugger set a breakpoint for line 0 if the
 line was no number

---
 CppLisp/CppLispDebugger/Debugger.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index fe90fc8..40a1873 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -645,16 +645,9 @@ namespace CppLisp
 
 	Tuple<bool, int> LispDebugger::ConvertToInt(const string & value)
 	{
-		var result = 0;
-		var ok = true;
-		try
-		{
-			result = /*Convert.ToInt32*/atoi(value.c_str());
-		}
-		catch (/*FormatException*/...)
-		{
-			ok = false;
-		}
+		char * end = null;
+		var result = (int)/*Convert.ToInt32*/strtol(value.c_str(), &end, 10);
+		var ok = end != value.c_str() && *end == '\0';
 		return /*new*/ Tuple<bool, int>(ok, result);
 	}
 }
-- 
2.43.0


From b2a30227937c128fbcd33cf68cd0c356e7814f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 51/79] fix: lists starting with the name of a global variable
 could not be evaluated in later evaluations

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 9a47407..070915b 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -258,15 +258,16 @@ namespace CppLisp
 		var functionName = function->ToString();
 		if (globalScope != null && globalScope->ContainsKey(functionName))
 		{
-			var fcn = (*globalScope)[functionName]->ToLispVariantRef().FunctionValue();
-			if (fcn.IsEvalInExpand())
+			// a list can start with the name of any variable (formal arguments or quoted data)
+			const LispVariant & value = (*globalScope)[functionName]->ToLispVariantRef();
+			if (value.IsFunction() && value.FunctionValue().IsEvalInExpand())
 			{
 				var args = std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList);
 				args->RemoveAt(0);
 
 				// process compile time macro definition 
 				//   --> side effect: add macro definition to internal macro scope
-				fcn.Function(args->ToArray(), globalScope);
+				value.FunctionValue().Function(args->ToArray(), globalScope);
 
 				// compile time macros definitions will be removed from code in expand macro phase
 				// because only the side effect above is needed for further macro replacements
-- 
2.43.0


From 05a5f4399eb83159acb6918fd23b134aba789942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 52/79] fix: dictionary functions crashed for values without a
 native value

---
 CppLisp/CppLispInterpreter/Environment.cpp | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 874717a..1cba414 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1451,11 +1451,21 @@ static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<o
 	return std::make_shared<LispVariant>(LispVariant(LispType::_NativeObject, std::make_shared<object>(Dictionary<LispVariant, std::shared_ptr<object>>())));
 }
 
+static Dictionary<LispVariant, std::shared_ptr<object>> & CheckForDictionary(const string & functionName, std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
+{
+	const LispVariant & value = arg->ToLispVariantRef();
+	if (!value.IsNativeObject() || value.Value == null || !value.Value->IsDictionary())
+	{
+		throw LispException("No dictionary in " + functionName, scope.get());
+	}
+	return value.Value->ToDictionary();
+}
+
 static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("dict-set", 3, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-set", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
 	dict[key] = std::make_shared<object>(*value);
@@ -1467,7 +1477,7 @@ static std::shared_ptr<LispVariant> DictGet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-get", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-get", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(object());
 
@@ -1478,7 +1488,7 @@ static std::shared_ptr<LispVariant> DictRemove(const std::vector<std::shared_ptr
 {
 	CheckArgs("dict-remove", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-remove", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var ok = dict.Remove(key);
 
@@ -1489,7 +1499,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 {
 	CheckArgs("dict-keys", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-keys", args[0], scope);
 	IEnumerable<std::shared_ptr<object>> result;
 	for (var elem : dict.GetKeys())
 	//foreach(var key in nativeDict.Keys)
@@ -1504,7 +1514,7 @@ static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<
 {
 	CheckArgs("dict-clean", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-clear", args[0], scope);
 	dict.Clear();
 
 	return std::make_shared<LispVariant>();
@@ -1514,7 +1524,7 @@ static std::shared_ptr<LispVariant> DictContainsKey(const std::vector<std::share
 {
 	CheckArgs("dict-contains-key", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-key", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key);
 
@@ -1525,7 +1535,7 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 {
 	CheckArgs("dict-contains-value", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-value", args[0], scope);
 	var value = args[1]->ToLispVariant();
 	var result = dict.ContainsValue(std::make_shared<object>(*value));
 
-- 
2.43.0


From bf8129776220cdaaf90399247f9c594ef53d0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 53/79] fix: evalstr crashed for values without a native value

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 1cba414..1fb2942 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1441,7 +1441,9 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	ValueRestorer<string> moduleNameRestorer(scope->ModuleName);
 	ValueRestorer<bool> isInEvalRestorer(scope->IsInEval);
 	scope->IsInEval = true;
-	return Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
+	// values like nil have no native value
+	const string code = variant.ToString();
+	return Lisp::Eval(code, scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + code);
 }
 
 static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 6b1ae4ffc717f418201f52bb55954296fba2e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 54/79] fix: fn without arguments or block crashed when the
 function was called

---
 CppLisp/CppLispInterpreter/Environment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 1fb2942..cc2915f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1857,6 +1857,11 @@ static IEnumerable<std::shared_ptr<object>> VectorToList(const std::vector<std::
 
 std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	if (args.size() < 2)
+	{
+		CheckArgs(Fn, 2, args, scope);
+	}
+
 	var name = /*(string)*/scope->UserData.get()!=null ? scope->UserData->ToString() : "";
 	var moduleName = scope->ModuleName;
 	var userDoc = scope->UserDoc;
-- 
2.43.0


From d21a19913aa828d6d8c862851b4078cab4e119c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 55/79] fix: shift by a count outside of 0..31 was undefined
 behaviour

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index cc2915f..01e1160 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -979,12 +979,12 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() << arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> (arg2.IntValue() & 31))); });
 }
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 5ccf54226e4e098a52dee079c2cfcc9ccda74e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 56/79] fix: variables of an imported module were frozen at the
 end of the import

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/csobject.cpp    | 12 +++++++++---
 CppLisp/CppLispInterpreter/csobject.h      |  3 ++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 01e1160..471090d 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -632,7 +632,7 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			}
 
 			// add new module to modules scope
-			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
+			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(importScope); // .Add(fileName, importScope);
 
 			scope->PopNextScope();
 		}
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 4257cea..4b15e64 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -64,7 +64,13 @@ namespace CppLisp
 	object::object(const LispScope & value)
 		: m_Type(ObjectType::__LispScope)
 	{
-		m_Data.pScope = new LispScope(value);
+		m_Data.pScope = new std::shared_ptr<LispScope>(std::make_shared<LispScope>(value));
+	}
+
+	object::object(std::shared_ptr<LispScope> value)
+		: m_Type(ObjectType::__LispScope)
+	{
+		m_Data.pScope = new std::shared_ptr<LispScope>(value);
 	}
 
 	object::object(std::function<void(std::shared_ptr<object>)> action)
@@ -83,7 +89,7 @@ namespace CppLisp
 		}
 		else if (other.IsLispScope())
 		{
-			m_Data.pScope = new LispScope(*(other.GetLispScopeRef()));
+			m_Data.pScope = new std::shared_ptr<LispScope>(*(other.m_Data.pScope));
 		}
 		else if (other.IsLispFunctionWrapper())
 		{
@@ -444,7 +450,7 @@ namespace CppLisp
 	{
 		if (IsLispScope())
 		{
-			return m_Data.pScope;
+			return m_Data.pScope->get();
 		}
 		return null;
 	}
diff --git a/CppLisp/CppLispInterpreter/csobject.h b/CppLisp/CppLispInterpreter/csobject.h
index 341dc85..0eec1d8 100644
--- a/CppLisp/CppLispInterpreter/csobject.h
+++ b/CppLisp/CppLispInterpreter/csobject.h
@@ -116,7 +116,7 @@ namespace CppLisp
 // TODO --> maybe use shared_ptr, so we can return the correct reference and no copy (i. e. for pCompileMacro) --> search for return copy
 			std::string * pString;
 			LispVariant * pVariant;
-			LispScope * pScope;
+			std::shared_ptr<LispScope> * pScope;
 			LispToken * pToken;
 			IEnumerable<std::shared_ptr<object>> * pList;
 			LispFunctionWrapper * pFunctionWrapper;
@@ -180,6 +180,7 @@ namespace CppLisp
 		explicit object(const LispMacroCompileTimeExpand & value);
 
 		explicit object(const LispScope & value);
+		explicit object(std::shared_ptr<LispScope> value);
 
 		explicit object(std::function<void(std::shared_ptr<object>)> action);
 
-- 
2.43.0


From 8c78be6cb7ab5f51a8d0b185a909560189232fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 57/79] fix: reading a directory as file ended the interpreter
 with a foreign exception

---
 CppLisp/CppLispInterpreter/Environment.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 471090d..2168799 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -30,6 +30,7 @@
 
 #include <map>
 #include <fstream>
+#include <sstream>
 
 #include <chrono>
 #include <thread>
@@ -102,14 +103,21 @@ namespace CppLisp
 static bool File_Exists(const string & fileName)
 {
 	std::ifstream infile(fileName);
-	return infile.good();
+	if (!infile.good())
+	{
+		return false;
+	}
+	// a directory can be opened but not read
+	infile.peek();
+	return !infile.bad();
 }
 
 std::string ReadFileOrEmptyString(const std::string & fileName)
 {
 	std::ifstream ifs(fileName);
-	std::string content = std::string((std::istreambuf_iterator<char>(ifs)), (std::istreambuf_iterator<char>()));
-	return std::string(content);
+	std::ostringstream content;
+	content << ifs.rdbuf();
+	return content.str();
 }
 
 bool WriteTextFile(const std::string & fileName, const std::string & content)
-- 
2.43.0


From 8de4e010a8b59b079b6de194c1b5ef12349cbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 58/79] fix: File-WriteAllText reported success if the content
 could not be written

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2168799..3f1a5e2 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -124,6 +124,8 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 {
 	std::ofstream ofs(fileName);
 	ofs << content;
+	// errors of the file system (disk full) are reported when the buffer is written
+	ofs.close();
 	return ofs.good();
 }
 
-- 
2.43.0


From c9d7eddf8099cf81612edef94744b0f86611abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 59/79] fix: output was added to the trace buffer even if trace
 is switched off

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 3f1a5e2..30839e5 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -170,7 +170,7 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 		}
 		text += item->ToString();
 	}
-	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
+	if (scope->ContainsKey(Traceon) && (bool)(*(*scope)[Traceon]))
 	{
 		string temp = GetTraceBuffer(scope);
 		temp += text;
-- 
2.43.0


From cf8c96ee9df1a144ae2199a25550dff4d45b1734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 60/79] fix: errors and stops of the debugger were located at
 the last evaluated argument instead of the call

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 070915b..aa65a82 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -148,6 +148,7 @@ namespace CppLisp
 		}
 
 		// for debugging: update the current line number at the current scope
+		var previousToken = scope->CurrentToken;
 		var currentToken = astAsList->First()->ToLispVariantRef().Token;
 		scope->CurrentToken = currentToken != null ? currentToken : scope->CurrentToken;
 
@@ -208,7 +209,11 @@ namespace CppLisp
 #endif
 
 		// call the function with the arguments
-		return functionWrapper.Function(arguments, scope);
+		var value = functionWrapper.Function(arguments, scope);
+
+		// this call is finished, the enclosing call is again the current one
+		scope->CurrentToken = previousToken;
+		return value;
 	}
 
 #ifdef ENABLE_COMPILE_TIME_MACROS 
-- 
2.43.0


From 541ca70f865ef41dd195356930c554140c7917b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 61/79] fix: evaluating a function call in a calling scope at
 the prompt of the debugger crashed the debugger

---
 CppLisp/CppLispDebugger/Debugger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 40a1873..f7e59db 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -41,7 +41,7 @@ class DebuggeeStateRestorer
 {
 public:
 	DebuggeeStateRestorer(std::shared_ptr<LispScope> scope)
-		: m_Scope(scope), m_CurrentToken(scope->CurrentToken), m_IsInReturn(scope->IsInReturn), m_Tracing(scope->Tracing), m_Debugger(scope->GlobalScope->Debugger)
+		: m_Scope(scope), m_CurrentToken(scope->CurrentToken), m_IsInReturn(scope->IsInReturn), m_Tracing(scope->Tracing), m_Next(scope->Next), m_Debugger(scope->GlobalScope->Debugger)
 	{
 	}
 
@@ -50,6 +50,7 @@ public:
 		m_Scope->CurrentToken = m_CurrentToken;
 		m_Scope->IsInReturn = m_IsInReturn;
 		m_Scope->Tracing = m_Tracing;
+		m_Scope->Next = m_Next;
 		m_Scope->GlobalScope->Debugger = m_Debugger;
 	}
 
@@ -58,6 +59,7 @@ private:
 	std::shared_ptr<LispToken> m_CurrentToken;
 	bool m_IsInReturn;
 	bool m_Tracing;
+	std::shared_ptr<LispScope> m_Next;
 	ILispDebugger * m_Debugger;
 };
 
-- 
2.43.0


From 985cb9b96ef83cb6a2a9462517dd00191b65a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 62/79] fix: a break command with an unterminated module name
 ended the debugged program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index f7e59db..10b462a 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -555,7 +555,8 @@ namespace CppLisp
 				// process: filename:linenumber
 				size_t iStopPos;
 				moduleName = GetStringLiteral(rest.Substring(1), /*out*/ iStopPos);
-				rest = rest.Substring(iStopPos + 2); // adjust for the two "
+				// adjust for the two " (the second one might be missing)
+				rest = iStopPos + 2 <= rest.size() ? rest.Substring(iStopPos + 2) : string::Empty;
 				if (rest.StartsWith(":"))
 				{
 					cmdArgs = rest.Substring(1).Split(' ');
-- 
2.43.0


From 041761ed9217aebbfbe31480647e564993c61449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 63/79] fix: the errors of a script were written twice

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 30575c9..b753e52 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -148,6 +148,8 @@ namespace CppLisp
 	std::shared_ptr<LispVariant> Lisp::SaveEval(const string & lispCode, const string & moduleName, bool verboseErrorOutput, bool tracing, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp, bool onlyMacroExpand)
 	{
 		std::shared_ptr<LispVariant> result;
+		// use the console if there is no other output given
+		std::shared_ptr<TextWriter> errOutp = outp != null ? outp : std::make_shared<TextWriter>();
 		try
 		{
 			result = Eval(lispCode, /*scope:*/ null, /*moduleName :*/ moduleName, /*tracing :*/ tracing, outp, inp, onlyMacroExpand);
@@ -156,40 +158,24 @@ namespace CppLisp
 		{
 			/*Console.WriteLine*/ //std::cout << string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data[LispUtils.LineNo], exc.Data[LispUtils.StartPos], exc.Data[LispUtils.StopPos], exc.Data[LispUtils.ModuleName]) << std::endl;
 			string errMsg = string::Format("\nError executing script.\n\n{0} --> line={1} start={2} stop={3} module={4}", exc.Message, exc.Data["LineNo"]->ToString(), exc.Data["StartPos"]->ToString(), exc.Data["StopPos"]->ToString(), exc.Data["ModuleName"]->ToString());
-			std::cout << errMsg << std::endl;
-			if (outp != null)
-			{
-				outp->WriteLine(errMsg);
-			}
+			errOutp->WriteLine(errMsg);
 // TODO --> implement stack trace for exception
 			var stackInfo = exc.Data["StackInfo"];
 			//Console.WriteLine("\nCallstack:\n{0}", stackInfo != null ? stackInfo : ">not available<");                if (verboseErrorOutput)
 			errMsg = string::Format("\nCallstack:\n{0}", stackInfo != null ? stackInfo->ToString() : ">not available<");
-			std::cout << errMsg << std::endl;
-			if (outp != null)
-			{
-				outp->WriteLine(errMsg);
-			}
+			errOutp->WriteLine(errMsg);
 			if (verboseErrorOutput)
 			{
-				/*Console.WriteLine*/std::cout << ("\nNative callstack:") << std::endl;
+				errOutp->WriteLine("\nNative callstack:");
 				errMsg = string::Format("Exception in eval(): {0} \ndata={1}", "exc->ToString()", "exc.Data");
-				/*Console.WriteLine*/std::cout << errMsg << std::endl;
-				if (outp != null)
-				{
-					outp->WriteLine(errMsg);
-				}
+				errOutp->WriteLine(errMsg);
 			}
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
 		catch (LispExceptionBase exc)
 		{
 			string errMsg = string::Format("\nError executing script.\n\n{0}", exc.Message);
-			std::cout << errMsg << std::endl;
-			if (outp != null)
-			{
-				outp->WriteLine(errMsg);
-			}
+			errOutp->WriteLine(errMsg);
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
 		return result;
-- 
2.43.0


From af1dd89dcb1c741411c3879e2a0fac6dd0e2a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 64/79] fix: is-...-p of defstruct failed for an empty list

---
 Library/fuellib.fuel | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Library/fuellib.fuel b/Library/fuellib.fuel
index 2f266b8..15325c8 100755
--- a/Library/fuellib.fuel
+++ b/Library/fuellib.fuel
@@ -108,7 +108,7 @@
 
     (eval 
         (list 'defn (sym (+ "is-" name "-p")) '(data) 
-            `(and (== (type data) 6) (== (first data) ,(sym (+ "#" name))))
+            `(and (== (type data) 6) (> (len data) 0) (== (first data) ,(sym (+ "#" name))))
          )
     )
 
-- 
2.43.0


From 1462654397213caa1315c621498f47ffafbd271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 65/79] fix: the syntax of << was documented as >>

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 30839e5..b70f665 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2466,7 +2466,7 @@ std::shared_ptr<LispScope> LispEnvironment::CreateDefaultScope()
 	(*scope)["%"] = CreateFunction(Modulo, "(% expr1 expr2)", "see: mod");
 
 	(*scope)[">>"] = CreateFunction(RightShift, "(>> expr1 expr2)", "Integer right shift. Returns integer expression1 right shifted for expression2 binary digits.");
-	(*scope)["<<"] = CreateFunction(LeftShift, "(>> expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.");
+	(*scope)["<<"] = CreateFunction(LeftShift, "(<< expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.");
 	(*scope)["|"] = CreateFunction(BinaryOr, "(| expr1 expr2)", "Binary or for integer numbers (bitwise or).");
 	(*scope)["&"] = CreateFunction(BinaryAnd, "(& expr1 expr2)", "Binary and for integer numbers (bitwise and).");
 	(*scope)["^"] = CreateFunction(BinaryXOr, "(^ expr1 expr2)", "Binary xor for integer numbers (bitwise xor).");
-- 
2.43.0


From f25e3686c5565cde9d5aa73254eade15b64e2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 66/79] fix: evalstr switched the tracing of calls off

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b70f665..0e4e2d8 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1453,7 +1453,7 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	scope->IsInEval = true;
 	// values like nil have no native value
 	const string code = variant.ToString();
-	return Lisp::Eval(code, scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + code);
+	return Lisp::Eval(code, scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + code, scope->Tracing);
 }
 
 static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 437a84e9f45335d385035c88a557dd772b2ebebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 67/79] fix: the documentation functions wrote their result
 also to the console

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/cstypes.cpp     | 39 +++++++++++++++++-----
 CppLisp/CppLispInterpreter/cstypes.h       |  3 +-
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 0e4e2d8..14c1131 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -343,7 +343,7 @@ static std::shared_ptr<LispVariant> DumpDocumentation(std::shared_ptr<LispScope>
 {
 	//string text; // var text = new StringBuilder();
 	ValueRestorer<std::shared_ptr<TextWriter>> restorer(scope->GlobalScope->Output);
-	scope->GlobalScope->Output = std::make_shared<TextWriter>(true); // StringWriter(text);
+	scope->GlobalScope->Output = std::make_shared<TextWriter>(true, false); // StringWriter(text);
 	dump();
 	string text = scope->GlobalScope->Output->GetContent();
 	return std::make_shared<LispVariant>(std::make_shared<object>(text));
diff --git a/CppLisp/CppLispInterpreter/cstypes.cpp b/CppLisp/CppLispInterpreter/cstypes.cpp
index 533b4e1..e8e3939 100644
--- a/CppLisp/CppLispInterpreter/cstypes.cpp
+++ b/CppLisp/CppLispInterpreter/cstypes.cpp
@@ -35,7 +35,10 @@ namespace CppLisp
 		{
 			m_sText += txt;
 		}
-		std::cout << txt;
+		if (m_bToConsole)
+		{
+			std::cout << txt;
+		}
 	}
 
 	void TextWriter::WriteLine()
@@ -44,7 +47,10 @@ namespace CppLisp
 		{
 			m_sText += "\n";
 		}
-		std::cout << std::endl;
+		if (m_bToConsole)
+		{
+			std::cout << std::endl;
+		}
 	}
 
 	void TextWriter::WriteLine(const string & txt)
@@ -53,7 +59,10 @@ namespace CppLisp
 		{
 			m_sText += txt + "\n";
 		}
-		std::cout << txt << std::endl;
+		if (m_bToConsole)
+		{
+			std::cout << txt << std::endl;
+		}
 	}
 
 	void TextWriter::WriteLine(const string & txt, const string & txt1)
@@ -63,7 +72,10 @@ namespace CppLisp
 		{
 			m_sText += temp + "\n";
 		}
-		std::cout << temp << std::endl;
+		if (m_bToConsole)
+		{
+			std::cout << temp << std::endl;
+		}
 	}
 
 	void TextWriter::WriteLine(const string & txt, const string & txt1, const string & txt2)
@@ -73,7 +85,10 @@ namespace CppLisp
 		{
 			m_sText += temp + "\n";
 		}
-		std::cout << temp << std::endl;
+		if (m_bToConsole)
+		{
+			std::cout << temp << std::endl;
+		}
 	}
 
 	void TextWriter::WriteLine(const string & txt, const string & txt1, const string & txt2, const string & txt3)
@@ -83,7 +98,10 @@ namespace CppLisp
 		{
 			m_sText += temp + "\n";
 		}
-		std::cout << temp << std::endl;
+		if (m_bToConsole)
+		{
+			std::cout << temp << std::endl;
+		}
 	}
 
 	void TextWriter::WriteLine(const string & txt, const string & txt1, const string & txt2, const string & txt3, const string & txt4)
@@ -93,7 +111,10 @@ namespace CppLisp
 		{
 			m_sText += temp + "\n";
 		}
-		std::cout << temp << std::endl;
+		if (m_bToConsole)
+		{
+			std::cout << temp << std::endl;
+		}
 	}
 
 	void TextWriter::Flush() 
@@ -101,8 +122,8 @@ namespace CppLisp
 		std::cout.flush();
 	}
 
-	TextWriter::TextWriter(bool bToString)
-		: m_bToString(bToString)
+	TextWriter::TextWriter(bool bToString, bool bToConsole)
+		: m_bToString(bToString), m_bToConsole(bToConsole)
 	{
 	}
 
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 62c32a4..8728bfe 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -306,10 +306,11 @@ namespace CppLisp
 	{
 	private:
 		bool	m_bToString;
+		bool	m_bToConsole;
 		string	m_sText;
 
 	public:
-		TextWriter(bool bToString = false);
+		TextWriter(bool bToString = false, bool bToConsole = true);
 		
 		inline void EnableToString(bool value = true)
 		{
-- 
2.43.0


From e020b72fdae7c5918a526a81e281fdffa5fe7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 68/79] fix: functions defined after evalstr lost their
 documentation

---
 CppLisp/CppLispInterpreter/Environment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 14c1131..e0eabdb 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1450,6 +1450,7 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	// restore the original values also if the evaluation fails
 	ValueRestorer<string> moduleNameRestorer(scope->ModuleName);
 	ValueRestorer<bool> isInEvalRestorer(scope->IsInEval);
+	ValueRestorer<IEnumerable<std::shared_ptr<LispToken>>> tokensRestorer(scope->Tokens);
 	scope->IsInEval = true;
 	// values like nil have no native value
 	const string code = variant.ToString();
-- 
2.43.0


From 832caa8fafa9f1ac64cbbde2025261a6456d70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 69/79] fix: the tracing flag of the scope of a function was
 not initialised

---
 CppLisp/CppLispInterpreter/Scope.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 01fc683..993611b 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -32,6 +32,7 @@ namespace CppLisp
 	LispScope::LispScope(const string & fcnName, std::shared_ptr<LispScope> globalScope, std::shared_ptr<string> moduleName, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp)
 	{
 		Debugger = null;
+		Tracing = false;
 		IsInEval = false;
 		IsInReturn = false;
 		NeedsLValue = false;
-- 
2.43.0


From efd02ad852144bdaf4fb1977ec15aa5c3ed0a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 70/79] fix: date-time returned the year since 1900 and the
 month counted from 0

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e0eabdb..6dcbcff 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -485,8 +485,8 @@ static std::shared_ptr<LispVariant> Datetime(const std::vector<std::shared_ptr<o
 	std::time_t t = std::time(0);   // get time now
 	std::tm* now = std::localtime(&t);
 
-	var year = now->tm_year;
-	var month = now->tm_mon;
+	var year = now->tm_year + 1900;
+	var month = now->tm_mon + 1;
 	var day = now->tm_mday;
 	var hour = now->tm_hour;
 	var minute = now->tm_min;
-- 
2.43.0


From 4a257073b3f8bf3907ade75db561ee300ffb043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 71/79] fix: expressions and conditions evaluated by the
 debugger lost the documentation of functions defined later

---
 CppLisp/CppLispDebugger/Debugger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 10b462a..d971d70 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -41,7 +41,7 @@ class DebuggeeStateRestorer
 {
 public:
 	DebuggeeStateRestorer(std::shared_ptr<LispScope> scope)
-		: m_Scope(scope), m_CurrentToken(scope->CurrentToken), m_IsInReturn(scope->IsInReturn), m_Tracing(scope->Tracing), m_Next(scope->Next), m_Debugger(scope->GlobalScope->Debugger)
+		: m_Scope(scope), m_CurrentToken(scope->CurrentToken), m_IsInReturn(scope->IsInReturn), m_Tracing(scope->Tracing), m_Next(scope->Next), m_Tokens(scope->Tokens), m_Debugger(scope->GlobalScope->Debugger)
 	{
 	}
 
@@ -51,6 +51,7 @@ public:
 		m_Scope->IsInReturn = m_IsInReturn;
 		m_Scope->Tracing = m_Tracing;
 		m_Scope->Next = m_Next;
+		m_Scope->Tokens = m_Tokens;
 		m_Scope->GlobalScope->Debugger = m_Debugger;
 	}
 
@@ -60,6 +61,7 @@ private:
 	bool m_IsInReturn;
 	bool m_Tracing;
 	std::shared_ptr<LispScope> m_Next;
+	IEnumerable<std::shared_ptr<LispToken>> m_Tokens;
 	ILispDebugger * m_Debugger;
 };
 
-- 
2.43.0


From c15e8bb1c3d0f5acff907f81b80636e0efa175aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 72/79] fix: doc and searchdoc of the prompt crashed for names
 that can not be read and were debugged themselves

---
 CppLisp/CppLispDebugger/Debugger.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index d971d70..306fb8c 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -65,6 +65,22 @@ private:
 	ILispDebugger * m_Debugger;
 };
 
+// writes the documentation of a function, the debugger itself is not involved in this evaluation
+static void ShowDocumentation(std::shared_ptr<TextWriter> output, const string & command, const string & name, std::shared_ptr<LispScope> scope)
+{
+	try
+	{
+		DebuggeeStateRestorer restorer(scope);
+		scope->GlobalScope->Debugger = null;
+		std::shared_ptr<LispVariant> result = Lisp::Eval("(" + command + " '" + name + ")", scope, scope->ModuleName);
+		output->WriteLine(string("{0}"), result->ToString());
+	}
+	catch (LispExceptionBase & ex)
+	{
+		output->WriteLine("Exception: " + ex.Message);
+	}
+}
+
 extern "C" CppLisp::ILispDebugger * create_debugger()
 {
 	return new CppLisp::LispDebugger();
@@ -152,9 +168,7 @@ namespace CppLisp
 				var items = cmd.Split(' ');
 				if (items.size() > 1)
 				{
-					string docCmd = "(doc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					ShowDocumentation(debugger->Output, "doc", items[1], currentScope);
 				}
 				else
 				{
@@ -166,9 +180,7 @@ namespace CppLisp
 				var items = cmd.Split(' ');
 				if (items.size() > 1)
 				{
-					string docCmd = "(searchdoc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					ShowDocumentation(debugger->Output, "searchdoc", items[1], currentScope);
 				}
 				else
 				{
-- 
2.43.0


From 743530e715bdb562896e55c5131056b75344abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 73/79] fix: comparing values with nil and undefined values
 crashed

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 3e0c24b..b9ecd48 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -354,7 +354,7 @@ namespace CppLisp
 
 	int LispVariant::CompareTo(std::shared_ptr<LispVariant> other)
 	{
-		return CompareTo(other->NativeObjectValue());
+		return CompareTo(std::make_shared<object>(*other));
 	}
 
 	void LispVariant::Add(std::shared_ptr<object> value)
-- 
2.43.0


From fbd081d024f87cf77ca39855514dadcd38d8e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:08 +0000
Subject: [PATCH 74/79] fix: adding an element to a list value changed only a
 copy of the list

---
 CppLisp/CppLispInterpreter/Variant.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index b9ecd48..8e1204b 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -363,8 +363,7 @@ namespace CppLisp
 		{
 			throw CreateInvalidCastException("list");
 		}
-		var list = Value->ToList();
-		list->Add(value);
+		Value->ToEnumerableOfObjectNotConstRef().Add(value);
 	}
 
 	LispVariant LispVariant::operator+(const LispVariant & r)
-- 
2.43.0


From d9276294b27d460d4a1f17835356fc8fce87701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:12 +0000
Subject: [PATCH 75/79] fix: strings with a zero byte were compared only up to
 this byte

---
 CppLisp/CppLispInterpreter/csstring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 1959f02..7268794 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -209,6 +209,6 @@ namespace CppLisp
 
     int string::CompareOrdinal(const string & a, const string & b)
 	{
-		return strcmp(a.c_str(), b.c_str());
+		return a.compare(b);
 	}
 }
-- 
2.43.0


From ff1bcbffc835045755d23d0b3106e2727f6a2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 76/79] fix: replace used texts only up to a zero byte

---
 CppLisp/CppLispInterpreter/csstring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 8fec857..53fcd45 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -142,7 +142,7 @@ namespace CppLisp
 		inline string Replace(const string & searchTxt, const string & replaceTxt) const
 		{
 			std::string s = *this;
-			return do_replace(s, searchTxt.c_str(), replaceTxt.c_str());
+			return do_replace(s, searchTxt, replaceTxt);
 		}
 		
 		inline size_t IndexOf(const string & txt, const string & /*arg*//*StringComparison.InvariantCulture*/) const
-- 
2.43.0


From 53e226c0df321e840bce74221be61b1609f9aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 77/79] fix: a format string with a huge width for a
 placeholder terminated the process

---
 CppLisp/CppLispInterpreter/csstring.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 7268794..486fc01 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -32,6 +32,9 @@
 
 namespace CppLisp
 {
+	// the width of a placeholder is limited (as in .NET), a bigger width is not valid
+	static const long MaxFormatWidth = 1000000;
+
 	string::string()
 		: std::string()
 	{
@@ -188,7 +191,7 @@ namespace CppLisp
 				{
 					char * rest = 0;
 					width = strtol(txt.c_str() + pos + 3, &rest, 10);
-					valid = rest != txt.c_str() + pos + 3 && rest == txt.c_str() + end;
+					valid = rest != txt.c_str() + pos + 3 && rest == txt.c_str() + end && width > -MaxFormatWidth && width < MaxFormatWidth;
 				}
 				if (end != npos && valid)
 				{
-- 
2.43.0


From 8bebfbc3d7c447f8a38e664e315bf354f7951075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 78/79] fix: break and clear commands of the debugger with a
 huge number used another line or breakpoint

---
 CppLisp/CppLispDebugger/Debugger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 306fb8c..8259a2a 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -30,6 +30,8 @@
 #include "cstypes.h"
 #include "csstring.h"
 
+#include <limits>
+
 using namespace CppLisp;
 
 const string LispDebugger::Prompt = /*Lisp::Name*/string("FUEL(isp)") + "> ";
@@ -663,8 +665,8 @@ namespace CppLisp
 	Tuple<bool, int> LispDebugger::ConvertToInt(const string & value)
 	{
 		char * end = null;
-		var result = (int)/*Convert.ToInt32*/strtol(value.c_str(), &end, 10);
-		var ok = end != value.c_str() && *end == '\0';
-		return /*new*/ Tuple<bool, int>(ok, result);
+		var result = /*Convert.ToInt32*/strtoll(value.c_str(), &end, 10);
+		var ok = end != value.c_str() && *end == '\0' && result >= std::numeric_limits<int>::min() && result <= std::numeric_limits<int>::max();
+		return /*new*/ Tuple<bool, int>(ok, (int)result);
 	}
 }
-- 
2.43.0


From 122d7f3d099b19e08a4b377b3c690df538fad133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 79/79] fix: breakpoints for a module were only hit if the path
 of the module was given too

---
 CppLisp/CppLispDebugger/Debugger.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 8259a2a..a1eb37f 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -504,10 +504,9 @@ namespace CppLisp
 		}
 
 		// compare only with file name, ignore the path
-		//            var module1 = new FileInfo(moduleName1);
-		//            var module2 = new FileInfo(moduleName2);
-		//            return module1.Name.Equals(module2.Name);
-		return moduleName1 == moduleName2;
+		// (the name of an evaluated string contains its code and is no path)
+		var fileName = [](const string & moduleName) -> string { return moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName : moduleName.Substring(moduleName.find_last_of("/\\") + 1); };
+		return fileName(moduleName1) == fileName(moduleName2);
 	}
 
 	void LispDebugger::ShowSourceCode(LispDebugger * debugger, const string & sourceCode, const string & moduleName, size_t/*?*/ currentLineNo)
-- 
2.43.0

