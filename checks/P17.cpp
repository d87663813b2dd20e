// eval and evalstr do what the code itself does.
#include "diff.h"
#include "gram.h"
static void explore(mc::W & w)
{
	gram::G g;
	g.add('E', { "1", "x", "y", "\"s\"", "NIL", "'a", "(+ $E $E)", "(list $E $E)", "(def v $E)", "(setf x $E)", "(gdef y $E)", "(if (== x 5) $E $E)", "(f $E)", "(do (print $E) $L)", "$L", "(fn (q) $E)", "(first $E)", "(m $E)", "'$E", "(return $E)", "(and $E #t)" });
	g.add('L', { "0:(list $E)", "(eval '$E)", "(do $L $L)", "(while (< x 7) (setf x (+ x 1)))" });
	const std::string pre = "(def x 5) (def y 6) (defn f (x) (do (setf y (list x y)) (list x y))) (define-macro-eval m (z) (list z z))";
	auto esc = [](const std::string & s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; };
	auto law = [&](const std::string & e)
	{
		std::string call = e[0] == '(' ? e : "(do (nop) (list " + e + "))";
		w.item([&]() { return e; }, [&]() -> std::string
		{
			// the language's answer for each way to evaluate ...
			std::string way[] = { call, "(eval '" + call + ")", "(evalstr \"" + esc(call) + "\")", "(eval (quote " + call + "))", "(evalstr (str \"" + esc(call) + "\"))", "(do (def c '" + call + ") (eval c))" };
			// a program that does not end does not end in any way
			{ ref::Interp m; m.maxSteps = 5000; m.eval(pre); if (m.eval(call).kind == ref::Res::Diverge) { w.tag("diverges"); return ""; } }
			for (auto & t : way)
			{
				std::string bad = diff::history(w, { pre, t, "(list x y)" });
				if (!bad.empty()) return bad;
				// the names of an enclosing function
				bad = diff::history(w, { pre, "(defn q (x p) (do (defn in (r) (do (nop) (list " + t + " x y p r))) (list (in 3) x p)))", "(q 5 8)", "(list x y)" });
				if (!bad.empty()) return bad;
				bad = diff::history(w, { pre, "(defn q (x p) (do " + t + " (list x y p)))", "(q 5 8)", "(list x y)" });
				if (!bad.empty()) return bad;
			}
			// ... and the ways agree with each other on the implementation
			if (e.find("return") == std::string::npos && e.find("NIL") == std::string::npos)
			{
				std::string first;
				for (int k = 0; k < 5; ++k)
				{
					fx::Session s; s.eval(pre);
					std::string r = s.eval(way[k]).brief() + s.takeOutput() + "|" + s.eval("(list x y)").brief();
					w.traces(1);
					if (k == 0) first = r;
					else if (r != first && !(first.substr(0, 3) == "ERR" && r.substr(0, 3) == "ERR")) return way[0] + " gives " + first + ", " + way[k] + " gives " + r;
				}
			}
			return "";
		});
	};
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n) g.each('E', n, law);
	// evaluation of constructed code
	const char * code[] = { "(list '+ 1 2)", "(list 'list 'x)", "(cons '+ '(1 2))", "(append '(list) l)", "'x", "x", "5", "\"s\"", "(list)", "NIL", "(list 'quote 'a)", "(list 'f 'x)", "`(+ ,x 1)", "`(list ,@l)", "(list 'setf 'x 9)", "(list 'def 'nv 4)", "(first '((+ 1 1)))", "(list f 1)", "(list + 1 2)", "(list 'if #t 1 2)", "''a", "(quote (quote (+ 1 2)))" };
	for (auto c : code) for (auto t : { "(eval $)", "(list (eval $) x)", "(do (def c $) (eval c) (eval c))", "(defn q (x) (eval $)) (q 77)", "(eval (eval $))", "(map (fn (x) (eval $)) '(1 2))", "(do (defn o (x) (do (defn in () (eval $)) (in))) (o 78))", "(do (defn o (x l) (fn (r) (list (eval $) r))) (def h (o 79 '(8 9))) (h 3))", "(do (defn o (x) (do (defn in (q) (do (defn in2 () (eval $)) (in2))) (in 1))) (o 80))", "(do (defn o (x) (map (fn (q) (eval $)) '(1 2))) (o 81))", "(do (defn o (x) (do (defn in () (evalstr \"(list x (eval 'x))\")) (list (in) (eval $)))) (o 82))" })
	{
		std::string s; for (const char * p = t; *p; ++p) { if (*p == '$') s += c; else s += *p; }
		w.item([&]() { return s; }, [&]() { return diff::history(w, { pre + " (def l (list 1 2))", s, "(list x y l)", "(list nv)" }); });
	}
	// texts for evalstr, also broken ones, and nesting
	const char * txt[] = { "", " ", "(+ 1 2)", "(+ 1 2) (+ 3 4)", "(def z 3)", "(", ")", "(+ 1", "x", "5", "(undefined-f 1)", "(first (list))", "; c", "(list 1) ; c", "(return 5)", "(setf x 70) (nope)", "(evalstr \\\"(+ x 1)\\\")", "(defn q1 (a) (list a x))", "(q1 3)", "'(a b)", "(define-macro-eval mm (a) (list a))", "(mm 5)", "\\\"s\\\"", "(println x)", "(setf x (+ x 1))" };
	for (auto a : txt) for (auto b : txt)
	{
		std::string A = std::string("(evalstr \"") + a + "\")", B = std::string("(evalstr \"") + b + "\")";
		w.item([&]() { return A + " ;; " + B; }, [&]() { return diff::history(w, { pre, A, B, "(list x y)", "(list " + A + " " + B + ")", "(defn w (x) (do (list " + A + ") (list " + B + " x)))", "(w 9)", "(list x)" }); });
	}
	// evaluations inside of each other, and programs of every length
	for (int n = 1; n <= (w.thorough() ? 60 : 24); ++n) for (int kind = 0; kind < 5; ++kind)
	{
		std::vector<std::string> h = { pre };
		std::string s = kind == 0 ? "(list x y)" : kind == 1 ? "(setf x (+ x 1))" : kind == 2 ? "(do (def q 3) (list q x))" : kind == 3 ? "(nosuch x)" : "(f 1)", t = s;
		for (int i = 0; i < n; ++i) { s = "(eval '" + s + ")"; t = i % 2 ? "(do (def k " + std::to_string(i) + ") (eval '(do (nop) " + t + ")))" : "(list " + std::to_string(i) + " (eval '" + t + "))"; }
		h.push_back(s); h.push_back(t); h.push_back("(list x y)"); h.push_back("(defn q (x) (do " + s + " (list x " + t + ")))"); h.push_back("(q 30)"); h.push_back("(list x y)");
		w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); });
		// functions that evaluate texts, each one calling the next one
		std::vector<std::string> g = { pre };
		for (int i = n; i >= 1; --i) g.push_back("(defn g" + std::to_string(i) + " (a" + std::to_string(i) + ") (" + (i == n ? "list a" + std::to_string(i) + " x" : kind == 0 ? "evalstr \"(list (g" + std::to_string(i + 1) + " " + std::to_string(i) + ") a" + std::to_string(i) + ")\"" : kind == 1 ? "eval '(list a" + std::to_string(i) + " (g" + std::to_string(i + 1) + " x))" : kind == 2 ? "evalstr (+ \"(g\" " + std::to_string(i + 1) + " \" a\" " + std::to_string(i) + " \")\")" : kind == 3 ? "eval (list 'g" + std::to_string(i + 1) + " 'a" + std::to_string(i) + ")" : "evalstr \"(def b" + std::to_string(i) + " a" + std::to_string(i) + ") (list (g" + std::to_string(i + 1) + " 2) b" + std::to_string(i) + ")\"") + "))");
		g.push_back("(g1 100)"); g.push_back("(list x y)");
		w.item([&]() { return diff::join(g, " ;; "); }, [&]() { return diff::history(w, g); });
		std::string p, c; for (int i = 0; i < n * 4; ++i) { p += kind == 0 ? "(def v" + std::to_string(i) + " " + std::to_string(i) + ") " : kind == 1 ? "(setf x (+ x " + std::to_string(i) + "))\n" : kind == 2 ? "; c\n(print x) " : kind == 3 ? "(defn w" + std::to_string(i) + " () (list x " + std::to_string(i) + ")) " : "(list " + std::to_string(i) + ") "; }
		std::vector<std::string> e = { pre, "(evalstr \"" + p + "\")", "(list x (evalstr \"(list x)\"))", kind == 3 ? "(w" + std::to_string(n * 4 - 1) + ")" : "(list y)", "(eval '(do " + p + "\n))", "(list x y)" };
		w.item([&]() { return diff::join(e, " ;; "); }, [&]() { return diff::history(w, e); });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P17",
		"all programs up to size 3 (thorough 4) over 25 forms, each evaluated in 6 ways at top level and inside a function and in a function of a function; 22 pieces of constructed code x 11 uses; all pairs of 25 texts for evalstr; eval inside of eval to every depth 1..24 (60), chains of functions that evaluate texts, texts of up to 96 (240) expressions",
		"reference interpreter for each way; direct, eval and evalstr results compared with each other on the implementation", {}, explore });
}
