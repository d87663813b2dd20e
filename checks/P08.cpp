// Binding of arguments.
#include "diff.h"
static void explore(mc::W & w)
{
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); }); };
	const char * formals[] = { "()", "(a)", "(a b)", "(a b c)", "(a a)", "(b a)", "(x)", "NIL" };
	const char * bodies[] = { "(args)", "(argscount)", "(list a b c)", "(list (arg 0) (arg 1))", "(arg 2)", "(do _additionalArgs)", "(list a _additionalArgs)", "(do (setf a 9) (list a (args)))", "(do (def b 8) (list a b (args) (argscount)))", "(apply list (args))", "(apply f2 (args))", "(f2 a b)", "(apply (fn (a) (list a)) (list b))", "(do (def g (fn (c) (list a b c (argscount)))) (g 5))", "(map (fn (c) (list c (argscount) a)) (args))", "(list (f2) (args))", "(if (> (argscount) 1) (arg 1) \"none\")", "(do (push 7 (args)) (args))", "(list (typestr a) (typestr b))", "(eval '(list a b))", "(evalstr \"(list a (args))\")", "`(,a ,@(args))" };
	const char * actual[] = { "1", "\"s\"", "'(1 2)", "NIL", "x", "'x", "(+ 1 2)", "(nop)", "(list)", "g0", "(fn () 1)" };
	int na = 11;
	const std::string pre = "(def x 5) (def a 70) (def b 80) (def c 90) (defn g0 () 1) (defn f2 (p q) (list p q (args) (argscount)))";
	for (auto fo : formals) for (auto bo : bodies) for (int n = 0; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo d(n, n <= 2 ? na : n == 3 ? (w.thorough() ? 6 : 4) : 4);
		do
		{
			std::string as; for (int i : d.d) as += std::string(" ") + actual[i];
			hist({ pre + " (defn f " + fo + " " + bo + ")", "(f" + as + ")", "(list a b c x)" });
			if (n != 2 || w.thorough()) { hist({ pre + " (def f (fn " + fo + " " + bo + "))", "(apply f (list" + as + "))", "(list a b c x)" }); hist({ pre, "(do (def q (fn " + std::string(fo) + " " + bo + ")) (list (q" + as + ") (first (map (fn (z) (q" + as + ")) '(1)))))", "(do (def h (lambda " + std::string(fo) + " " + bo + ")) (h" + as + "))" }); }
		} while (d.next());
	}
	// every number of formal and actual arguments
	for (int f = 0; f <= (w.thorough() ? 40 : 20); ++f) for (int a = 0; a <= (w.thorough() ? 80 : 40); a += a < 18 || w.thorough() ? 1 : 5)
	{
		std::string fo, ac, ls;
		for (int i = 0; i < f; ++i) { fo += " p" + std::to_string(i); ls += " p" + std::to_string(i); }
		for (int i = 0; i < a; ++i) ac += " " + std::to_string(i * 11);
		std::string d = "(defn f (" + fo + ") (list (list" + ls + ") (args) (argscount)";
		hist({ d + "))", "(f" + ac + ")", "(apply f '(" + ac + "))", "(apply 'f '(" + ac + "))" });
		hist({ d + " _additionalArgs))", "(f" + ac + ")", "(f)" });
		for (int i = 0; i < 3; ++i) hist({ "(defn f (" + fo + ") (arg " + std::to_string(a - i) + "))", "(f" + ac + ")" });
	}
	// arguments are passed by reference to lists, by value otherwise; callee and caller names do not mix
	const char * touch[] = { "(push 9 a)", "(pop a)", "(setf (first a) 9)", "(setf a 9)", "(setf (nth 1 (args)) 9)", "(def a 9)", "(append a a)", "(reverse a)", "(setf b a)", "(gdef a 9)", "(setf (last b) 9)", "(rest a)" };
	for (auto t1 : touch) for (auto t2 : touch) for (auto how : { "(f l m)", "(f l l)", "(f (list 1 2) l)", "(f (rest l) (append l m))", "(apply f (list l m))", "(f '(1 2) 'l)", "(f \"ab\" l)", "(f (first n) n)" })
		hist({ "(def l (list 1 2 3)) (def m (list 4 5)) (def n (list (list 6 7) 8)) (defn f (a b) (do " + std::string(t1) + " " + t2 + " (list a b)))", how, "(list l m n)", how, "(list l m n)" });
	// chains of calls: every level has its own variables of the same names
	for (int n = 1; n <= (w.thorough() ? 60 : 24); ++n) for (int kind = 0; kind < 6; ++kind)
	{
		std::vector<std::string> h = { "(def a 70) (def b 80)" };
		for (int i = n; i >= 1; --i)
		{
			std::string next = i == n ? "(list a b (args))" : kind == 1 ? "(f" + std::to_string(i + 1) + " b a)" : kind == 4 ? "(apply f" + std::to_string(i + 1) + " (list (list a) b))" : "(f" + std::to_string(i + 1) + " (+ a 1) b " + std::to_string(i) + ")";
			std::string body = kind == 2 ? "(do (def c a) (def r " + next + ") (list r a b c))" : kind == 3 ? "(do (setf a (+ a 1)) (def r " + next + ") (list r a b))" : kind == 5 ? "(do (def r (map (fn (a) " + next + ") (list b))) (list r a b (argscount)))" : "(list " + next + " a b)";
			h.push_back("(defn f" + std::to_string(i) + (i % 3 == 1 && kind != 1 ? " (a b)" : i % 3 == 2 && kind != 1 ? " (a b c)" : " (a b)") + " " + body + ")");
		}
		h.push_back("(f1 1 2)"); h.push_back("(list a b)"); h.push_back("(f1 (list 1) \"s\")");
		hist(h);
	}
	for (int n = 0; n <= (w.thorough() ? 120 : 60); ++n)
	{
		std::string N = std::to_string(n);
		hist({ "(defn r (n acc) (if (== n 0) (list acc (args)) (do (def m n) (def v (r (- n 1) (cons n acc))) (if (== m n) v \"mixed\"))))", "(r " + N + " '())", "(defn s (n x) (do (if (== n 0) (return x)) (s (- n 1) (+ x n))))", "(s " + N + " 0)", "(defn e (n) (if (== n 0) #t (o (- n 1)))) (defn o (n) (if (== n 0) #f (e (- n 1))))", "(list (e " + N + ") (o " + N + "))" });
		// names of formal arguments of every length, and that differ in the last character or in case only
		std::string p(n + 1, 'p');
		hist({ "(defn f (" + p + " " + p + "q " + p + "Q P" + p + ") (list " + p + "Q " + p + " P" + p + " " + p + "q (argscount)))", "(f 1 2 3 4)", "(f 1 2)", "(def " + p + "q 9) (list " + p + "q (f 5 6 7 8) " + p + "q)" });
	}
	// formal arguments named like builtin functions and special names
	for (auto nm : { "list", "len", "first", "nth", "+", "args", "str", "print", "map", "tracex", "typestr", "cons", "apply", "eq", "min", "f", "self", "_x", "a.b", "x!", "<>", "*", "%", "a-b", "argscount2", "it", "end", "else" })
		for (auto bo : { "(list $)", "(do (def r $) (list r b))", "(do (setf $ 5) (list $ b))", "((fn (b) (list b $)) 3)", "(do (def g (fn () (list $))) (g))", "(map (fn (q) (cons q (cons $ '()))) '(1 2))", "(if (== b 2) (list b $) 0)" })
		{
			std::string t; for (const char * q = bo; *q; ++q) { if (*q == '$') t += nm; else t += *q; }
			hist({ std::string("(defn ff (") + nm + " b) " + t + ")", "(ff 1 2)", "(ff '(7 8) 2)", "(list 1 (len '(1 2)))", std::string("(def gg (fn (b ") + nm + ") " + t + "))", "(gg 2 6)", "(apply gg '(2 6))" });
		}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P08",
		"8 formal lists x 22 bodies x all actual lists up to length 3 (thorough 4), called directly, through apply, def and lambda; all pairs of 0..20 (40) formal and 0..40 (80) actual arguments; all pairs of 12 operations on the arguments x 8 ways to pass lists; chains of 1..24 (60) functions and recursions of depth 0..60 (120) with the same names at every level; formal names of every length, named like builtin functions",
		"reference interpreter", {}, explore });
}
