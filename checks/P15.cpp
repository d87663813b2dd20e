// Macros.
#include "diff.h"
#include "gram.h"
#include <algorithm>
static void explore(mc::W & w)
{
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); }); };
	const std::string pre = "(def x 1) (def y 2) (def l (list 3 4)) (defn f (a b) (list \"f\" a b)) (defn g () (do (print \"g\") (first (list 5))))";
	// 1. definition x call, both kinds of macros
	const char * formals[] = { "()", "(a)", "(a b)", "(x)", "(b a)", "(a a)" };
	const char * bodies[] = { "(list a b)", "(list a a)", "(+ a 1)", "(setf a 9)", "(def a 7)", "(do a)", "(do (def tmp a) (list tmp b))", "(quote a)", "(list 'a 'b)", "(if a b 0)", "(f a b)", "(a b)", "(list (list a) (list b))", "'(a b)", "`(a ,b)", "(list x y)", "(fn (q) (list q a))", "(do (println \"m\" a) (first (list b)))", "(quoted-macro-args)", "(list \"a\" \"b\")", "(m2 a)", "(list)", "(eval 'a)", "(while (< a 3) (setf a (+ a 1)))" };
	const char * acts[] = { "1", "x", "'x", "(+ 1 2)", "(g)", "\"s\"", "(list 1 2)", "l", "'(p q)", "a", "b", "f", "(setf x 8)", "NIL", "(m2 3)", "(print x)", "()" };
	for (auto kind : { "define-macro-eval", "define-macro-expand", "define-macro" }) for (auto fo : formals) for (auto bo : bodies)
		for (int n = 0; n <= 3; ++n)
		{
			mc::Odo o(n, n == 1 ? 17 : n == 2 ? (w.thorough() ? 17 : 9) : n == 3 ? 3 : 1);
			do
			{
				std::string as; for (int i : o.d) as += std::string(" ") + acts[n == 2 && !w.thorough() ? (i * 2) % 17 : i];
				hist({ pre + " (define-macro-eval m2 (z) (list \"m2\" z))", std::string("(") + kind + " m " + fo + " " + bo + ")", "(m" + as + ")", "(list x y l)" });
				if (n == 1) hist({ pre + " (define-macro-expand m2 (z) (list \"m2\" z))", std::string("(") + kind + " m " + fo + " " + bo + ") (defn h (a b) (do (m" + as + ") (list a (m" + as + "))))", "(h 50 60)", "(list x y l)", "(m" + as + ")" });
			} while (o.next());
		}
	// 2. where macros are called
	const char * ctx[] = { "$", "(list $ $)", "(do $)", "(if #t $ 0)", "(def r $)", "(f $ 1)", "(while (< x 3) (do (setf x (+ x 1)) $))", "(map (fn (e) $) '(1 2))", "(apply f (list $ 2))", "(eval '$)", "(evalstr \"$\")", "'$", "`(1 ,$)", "(and #t (== $ 1))", "(m $ $)", "(println $)", "(do (def g5 (fn (x) $)) (g5 5))", "(defn k (x) $) (k 6)", "(do (def x 33) $)", "(list $ (setf x 5) $)" };
	const char * defs[] = { "(define-macro-eval m (a b) (list a b))", "(define-macro-expand m (a b) (list a b))", "(define-macro-eval m (a b) (do (setf a (+ a 10)) (first (list b))))", "(define-macro-expand m (a b) (do (setf a (+ a 10)) (first (list b))))", "(define-macro-eval m (a b) (if (< a 2) b (list b b)))", "(define-macro-expand m (a b) (list 'if (list '< 'a 2) 'b 0))", "(define-macro-expand m (a b) (+ a b))" };
	for (auto d : defs) for (auto c1 : ctx) for (auto c2 : ctx) for (auto call : { "(m x 2)", "(m x (m x 1))", "(m x y)" })
	{
		if (!w.thorough() && c2 != ctx[0] && call != std::string("(m x 2)")) continue;
		auto in = [](const char * c, const std::string & x) { std::string s; for (; *c; ++c) if (*c == '$') s += x; else s += *c; return s; };
		std::string t = in(c2, call);
		if (c1 == ctx[10] && t.find('"') != std::string::npos) continue;
		std::string p = in(c1, t);
		hist({ pre, d, p, "(list x y)", p });
		hist({ pre, std::string(d) + " " + p, "(list x y)" });
	}
	// 3. histories: definition, redefinition, functions with the same name, failing calls
	const char * ops[] = { "(define-macro-eval m (a) (list 1 a))", "(define-macro-eval m (a b) (list 2 a b))", "(define-macro-expand m (a) (list '+ 3 a))", "(defn m (a) (list 4 a))", "(m x)", "(m x y)", "(defn u (x) (m x))", "(u 70)", "(m (m x))", "(define-macro-eval n (q) (m q))", "(n y)", "(setf x (+ x 1))", "(m)", "(def m 5)", "(delvar 'm)", "(define-macro-expand k (q) (list 'list 'x (list 'quote (m q))))", "(k y)" };
	for (int n = 1; n <= (w.thorough() ? 5 : 4); ++n)
	{
		mc::Odo o(n, n == 5 ? 12 : 17);
		do { std::vector<std::string> v = { "(def x 1) (def y 2)" }; for (int i : o.d) v.push_back(ops[i]); hist(v); } while (o.next());
	}
	// macros with many arguments, more and fewer of them than formals, in every order
	for (int n = 0; n <= (w.thorough() ? 40 : 16); ++n) for (int m = 0; m <= n + 2; ++m) for (auto kind : { "define-macro-eval", "define-macro-expand" }) for (int order = 0; order < 3; ++order)
	{
		if (m < n - 1 && m > 0 && !w.thorough()) continue;
		std::string fo, bo, as;
		for (int i = 0; i < n; ++i) { fo += " p" + std::to_string(i); bo += " p" + std::to_string(order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n); }
		for (int i = 0; i < m; ++i) as += i % 3 == 0 ? " " + std::to_string(i * 11) : i % 3 == 1 ? " (+ x " + std::to_string(i) + ")" : " p" + std::to_string(i * 5 % (n + 1));
		std::string pre = "(do"; for (int i = 0; i <= n; ++i) pre += " (def p" + std::to_string(i) + " \"v" + std::to_string(i) + "\")";
		hist({ pre + " (def x 1))", std::string("(") + kind + " m (" + fo + ") (list" + bo + "))", "(m" + as + ")", "(list x (m" + as + ") p0)" });
	}
	// chains of macros: each one expands to a call of the next one
	for (int n = 1; n <= (w.thorough() ? 24 : 12); ++n) for (auto kind : { "define-macro-eval", "define-macro-expand" }) for (auto body : { "(NEXT a)", "'(NEXT a)", "(list 'NEXT 'a)", "`(NEXT a)", "(do (NEXT a))", "(list (NEXT a) 1)", "(if #t (NEXT a) 0)", "(list '+ 1 '(NEXT a))" }) for (auto end : { "(list \"end\" a)", "'(list \"end\" a)", "(do (print \"e\") (first (list a)))", "'(do (print \"e\") (first (list a)))", "a" }) for (int order = 0; order < 2; ++order)
	{
		std::vector<std::string> h = { "(def x 1) (def y 2)" }, d;
		for (int i = 0; i <= n; ++i)
		{
			std::string b = i == n ? end : body; size_t p = b.find("NEXT"); if (p != std::string::npos) b.replace(p, 4, "c" + std::to_string(i + 1));
			d.push_back(std::string("(") + kind + " c" + std::to_string(i) + " (a) " + b + ")");
		}
		if (order) std::reverse(d.begin(), d.end());
		h.insert(h.end(), d.begin(), d.end());
		h.push_back("(c0 x)"); h.push_back("(defn h (x) (list x (c0 (+ x 1)))) (h 5)"); h.push_back("(list x y)");
		hist(h);
	}
	// 4. bodies up to a size
	gram::G g;
	g.add('B', { "a", "b", "x", "1", "(list $B $B)", "(+ $B $B)", "'$B", "(if (< a 5) $B $B)", "(do (setf x $B) (list x))", "(f $B $B)", "`(1 ,$B)", "(m2 $B)", "(apply (fn (a) $B) '(4))" });
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n) g.each('B', n, [&](const std::string & b)
	{
		for (auto kind : { "define-macro-eval", "define-macro-expand" }) for (auto call : { "(m 1 2)", "(m x y)", "(m (+ x 1) (g))" })
			hist({ pre + " (define-macro-eval m2 (z) (list \"m2\" z z))", std::string("(") + kind + " m (a b) (do (list " + b + ")))", call, "(list x y)", "(defn h (a b) (list a " + std::string(call) + " b)) (h 8 9)" });
	});
	// the arguments as they were written, any number of times and together with the formal arguments
	const char * qm[] = { "(quoted-macro-args)", "(len (quoted-macro-args))", "(first (quoted-macro-args))", "(cdr (quoted-macro-args))", "(nth 1 (quoted-macro-args))", "`(list ,@(quoted-macro-args))", "(map typestr (quoted-macro-args))", "(list a (quoted-macro-args))", "(list 'a (quoted-macro-args) a)", "(do (def q (quoted-macro-args)) (list q a))", "(list '+ 1 (len (quoted-macro-args)))", "(if (> (len (quoted-macro-args)) 1) 1 0)", "a", "'(quoted-macro-args)", "(reverse (quoted-macro-args))" };
	const char * qa[] = { "1", "x", "(+ 1 2)", "\"s\"", "'x", "(list x y)", "a", "()", "NIL", "(setf x 8)", "quoted-macro-args" };
	for (auto kind : { "define-macro-eval", "define-macro-expand" }) for (auto fo : { "()", "(a)", "(a b)" }) for (int k = 1; k <= 3; ++k)
	{
		mc::Odo o(k, k == 3 && !w.thorough() ? 7 : 15);
		do
		{
			std::string b; for (int d : o.d) b += std::string(" ") + qm[k == 3 && !w.thorough() ? d * 2 : d];
			for (auto how : { "(list$)", "(do (list$))", "`(list ,(len (list$)))" }) for (int n = 1; n <= 3; ++n) for (int a = 0; a < (k == 1 ? 11 : k == 2 ? 4 : 1); ++a)
			{
				std::string as; for (int i = 0; i < n; ++i) as += std::string(" ") + qa[(a + i * 3) % 11];
				std::string t = how; t.replace(t.find('$'), 1, b);
				hist({ pre, std::string("(") + kind + " m " + fo + " " + t + ")", "(m" + as + ")", "(list x (m" + as + "))", "(list x y)" });
			}
		} while (o.next());
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P15",
		"2 kinds of macros (and the alias) x 6 formal lists x 24 bodies x all argument lists up to length 3 over 17 arguments, at top level and in functions; 7 definitions x all pairs of 20 contexts; all histories up to length 4 (thorough 5) of 17 definitions, redefinitions and calls; macros of 0..16 (40) formals with up to two arguments more or one fewer, used in 3 orders; chains of 1..12 (24) macros of 8 forms with 5 ends, defined in both orders; all bodies up to size 3 (4) over 13 forms; bodies with up to 3 of 15 uses of the arguments as they were written",
		"reference interpreter (its own expander): values, output, globals after every step",
		{ "code built by constructed nested lists is not judged" }, explore });
}
