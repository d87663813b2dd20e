// Scoping: definitions, assignments and closures.
#include "diff.h"
#include "gram.h"
static void explore(mc::W & w)
{
	diff::Opt o;
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h, o); }); };
	// 1. statement sequences in a function body, called, and the globals afterwards
	std::vector<std::string> st = { "(def x 10)", "(gdef x 20)", "(setf x 30)", "(setf x (+ x 1))", "(def y x)", "(gdef y (+ x 5))", "(setf y x)", "(delvar 'x)", "(delvar 'y)", "(def h (fn () (list x y)))", "(setf h (fn () (setf x (+ x 100))))", "(h)", "(setf p 7)", "(def p x)", "(defn x () 5)", "(gdefn h () x)", "(k 1)", "(setf q 1)" };
	int ns = (int)st.size();
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo d(n, ns);
		do
		{
			std::string body; for (int i : d.d) body += st[i] + " ";
			hist({ "(def x 1) (def y 2) (def h (fn () x)) (defn k (x) (do (setf x (+ x 1)) (def z x) (list x y z)))", "(defn f (p) (do " + body + "(list x y p)))", "(f 5)", "(list x y)", "(h)", "(f 6)" });
			if (n < 3) hist({ "(def x 1) (def y 2) (def p 3) (def h (fn () x)) (defn k (x) (do (setf x (+ x 1)) (def z x) (list x y z)))", body + "(list x y)", "(list x y p (h))" });
			if (n == 2) hist({ "(def x 1) (def y 2) (def p 3) (def h (fn () x)) (defn k (x) (do (setf x (+ x 1)) (def z x) (list x y z)))", st[d.d[0]], st[d.d[1]], "(list x y p)", "(h)" });
		} while (d.next());
	}
	// 2. nested functions: which x is meant
	const char * bind[] = { "", "(def x %)", "(gdef x %)", "(setf x %)" };
	const char * form[] = { "()", "(x)" };
	for (auto b0 : bind) for (auto b1 : bind) for (auto b2 : bind) for (auto b3 : bind) for (auto f1 : form) for (auto f2 : form) for (int ret = 0; ret < 5; ++ret)
	{
		if (!w.thorough() && *b0 == 0 && *b1 == 0) continue;
		auto in = [](std::string s, int v) { size_t p = s.find('%'); if (p != std::string::npos) s.replace(p, 1, std::to_string(v)); return s; };
		std::string inner = "(fn " + std::string(f2) + " (do " + in(b2, 300) + " (list x (setf x (list 1 x)) " + "x)))";
		std::string outer = "(fn " + std::string(f1) + " (do " + in(b1, 200) + " " + (ret == 0 ? inner : ret == 1 ? "(def g " + inner + ") " + in(b3, 400) + " (first (list g))" : ret == 2 ? "(list " + inner + " x)" : ret == 3 ? "(def g " + inner + ") (g 5) (list g x)" : "(defn g " + std::string(f2) + " (do " + in(b2, 300) + " (setf x (list 2 x)) (first (list x)))) (list (g 8) (g 9) x)") + "))";
		hist({ in(b0, 100), "(def o " + outer + ")", "(def r (o 7))", ret == 0 || ret == 1 ? "(r 8)" : "(list r)", ret == 0 || ret == 1 ? "(list (r 9) (r 10))" : ret == 2 || ret == 3 ? "(do (def c (first r)) (list (c 8) (c 9)))" : "(list r)", "(list x)", "(def r2 (o 71))", "(list x)" });
	}
	// 3. counters, accumulators and shared closures: all interleavings of calls
	const std::string mkc = "(defn mk (n) (do (def s (list)) (list (fn () (do (setf n (+ n 1)) (first (list n)))) (fn (k) (do (setf n (+ n k)) (push k s 0) (first (list n)))) (fn () (list n s)) (fn (f) (f))))) (def a (mk 0)) (def b (mk 100)) (def c a) (def i1 (first a)) (def p1 (nth 1 a)) (def g1 (nth 2 a)) (def i2 (first b)) (def p2 (nth 1 b)) (def g2 (nth 2 b)) (def ap (nth 3 c))";
	const char * calls[] = { "(i1)", "(p1 10)", "(g1)", "(i2)", "(p2 7)", "(g2)", "(ap i2)", "(ap i1)", "(setf i1 i2)", "(def n 55)", "(setf a (mk 1000))" };
	for (int n = 1; n <= (w.thorough() ? 5 : 4); ++n)
	{
		mc::Odo d(n, 11);
		do { std::vector<std::string> h = { mkc }; for (int i : d.d) h.push_back(calls[i]); h.push_back("(list (g1) (g2))"); hist(h); } while (d.next());
	}
	// closures of closures: every sequence of names they are called by (the same name for all of them included), every variable of every level
	{
		const char * nm[] = { "f", "g", "h" };
		const char * at[] = { "(list a b c d e)", "(do (setf a (+ a 100)) (list a b c d e))", "(do (setf b (list b c)) (setf c 7) (list a b c d e))", "(do (def a 5) (list a b c d e))", "(do (gdef b 6) (list a b c d e))", "(do (def f a) (list f b c d e))", "(list e (do (setf d e) (first (list d))) a)" };
		for (int n = 2; n <= (w.thorough() ? 5 : 4); ++n) for (auto last : at) for (int own = 0; own < 3; ++own)
		{
			std::string code = last;
			for (int i = n; i >= 1; --i)
			{
				std::string v(1, (char)('a' + i - 1));
				// a level has an argument, a variable or both
				std::string fn = own == 0 ? "(fn (" + v + ") $)" : own == 1 ? "(fn (q) (do (def " + v + " q) $))" : "(fn (" + v + ") (do (setf " + v + " (+ " + v + " 1)) (def q " + v + ") $))";
				size_t p = fn.find('$'); fn.replace(p, 1, code); code = fn;
			}
			mc::Odo o(n, 3);
			do
			{
				std::vector<std::string> h = { "(def a 10) (def b 20) (def c 30) (def d 40) (def e 50)", std::string("(def ") + nm[o.d[0]] + " " + code + ")" };
				for (int i = 0; i + 1 < n; ++i) h.push_back(std::string("(def ") + nm[o.d[i + 1]] + " (" + nm[o.d[i]] + " " + std::to_string(i + 1) + "))");
				for (int i = 0; i < 2; ++i) h.push_back(std::string("(") + nm[o.d[n - 1]] + " " + std::to_string(n + i) + ")");
				h.push_back("(list a b c d e)");
				hist(h);
			} while (o.next());
		}
	}
	// closures nested to every depth: each variable of each level is read and assigned from the innermost function; the call chain is as deep
	for (int n = 1; n <= (w.thorough() ? 60 : 30); ++n) for (int form = 0; form < 4; ++form)
	{
		std::string all = "(list g"; for (int i = 1; i <= n; ++i) all += " v" + std::to_string(i); all += ")";
		std::string code = "(do (setf v1 (+ v1 100)) (setf v" + std::to_string((n + 1) / 2) + " 7) (setf g (+ g 1)) " + all + ")", call = "F";
		for (int i = n; i >= 1; --i)
		{
			std::string v = "v" + std::to_string(i), f = "f" + std::to_string(i), x = "(" + v + ")";
			if (form == 0) code = "(fn " + x + " " + code + ")";                                                                     // called one after the other
			else if (form == 1) code = i == n ? "(defn " + f + " " + x + " " + code + ")" : "(defn " + f + " " + x + " (do " + code + " (f" + std::to_string(i + 1) + " " + std::to_string(i + 1) + ")))";
			else if (form == 2) code = i == n ? "(defn " + f + " (q) (do (def " + v + " q) " + code + "))" : "(defn " + f + " (q) (do (def " + v + " q) " + code + " (f" + std::to_string(i + 1) + " (+ q 1)) ))";
			else code = "(defn " + f + " " + x + " (do (def r (fn () " + v + ")) " + (i == n ? code : code + " (f" + std::to_string(i + 1) + " (+ (r) 1))") + "))";
		}
		std::vector<std::string> h = { "(def g 1000)" };
		if (form == 0) { h.push_back("(def k0 " + code + ")"); for (int i = 0; i < n; ++i) h.push_back("(def k" + std::to_string(i + 1) + " (k" + std::to_string(i) + " " + std::to_string(i + 1) + "))"); h.push_back("(k" + std::to_string(n - 1) + " 5)"); h.push_back("k" + std::to_string(n)); }
		else { h.push_back(code); h.push_back("(f1 1)"); h.push_back("(f1 11)"); }
		h.push_back("(list g)");
		hist(h);
	}
	// any number of variables of a function, all of them captured
	for (int n = 1; n <= (w.thorough() ? 200 : 80); ++n)
	{
		std::string defs, all = "(list", args, set; for (int i = 0; i < n; ++i) { std::string v = "v" + std::to_string(i); defs += " (def " + v + " " + std::to_string(i * 3) + ")"; all += " " + v; args += " " + v; set += " (setf " + v + " (+ " + v + " " + std::to_string(i) + "))"; }
		hist({ "(def v0 77) (def v5 78)", "(defn m () (do" + defs + " (fn () (do" + set + " " + all + ")))))", "(def c (m))", "(c)", "(def e (m))", "(c)", "(e)", "(list v0 v5)" });
	}
	// functions defined by name inside of functions, every sequence of names (the name of the enclosing function included)
	for (auto last : { "(list a b c d e)", "(do (setf a (+ a 100)) (list a b c d e))", "(do (setf b (list b c)) (setf c 7) (list a b c d e))", "(do (def d a) (gdef a 9) (list a b c d e))", "(list e (do (setf d e) (first (list d))) a)" })
		for (int n = 2; n <= (w.thorough() ? 5 : 4); ++n) for (int own = 0; own < 3; ++own)
		{
			const char * nm[] = { "f", "g", "h" };
			mc::Odo o(n, 3);
			do
			{
				std::string code = last;
				for (int i = n; i >= 1; --i)
				{
					std::string v(1, (char)('a' + i - 1)), me = nm[o.d[i - 1]];
					std::string call = i == n ? code : "(do " + code + " (" + nm[o.d[i]] + " " + std::to_string(i + 1) + "))";
					code = own == 0 ? "(defn " + me + " (" + v + ") " + call + ")" : own == 1 ? "(defn " + me + " (q) (do (def " + v + " q) " + call + "))" : "(defn " + me + " (" + v + ") (do (setf " + v + " (+ " + v + " 10)) " + call + "))";
				}
				hist({ "(def a 10) (def b 20) (def c 30) (def d 40) (def e 50)", code, std::string("(") + nm[o.d[0]] + " 1)", std::string("(") + nm[o.d[0]] + " 2)", "(list a b c d e)" });
			} while (o.next());
		}
	// 4. recursion: every call has its own variables
	for (int n = 0; n <= 12; ++n)
	{
		std::string a = std::to_string(n);
		hist({ "(def v 77) (defn fac (n) (if (<= n 1) 1 (* n (fac (- n 1)))))", "(fac " + a + ")", "(list v)" });
		hist({ "(defn fib (n) (do (def v n) (if (< n 2) v (+ (fib (- n 1)) (fib (- v 2))))))", "(fib " + a + ")" });
		hist({ "(defn ev (n) (if (== n 0) #t (od (- n 1)))) (defn od (n) (if (== n 0) #f (ev (- n 1))))", "(list (ev " + a + ") (od " + a + "))" });
		hist({ "(defn down (n) (do (def l (list n)) (if (> n 0) (setf l (append l (down (- n 1))))) (push n l) (first (list l))))", "(down " + a + ")" });
		hist({ "(defn mk (n) (if (== n 0) (fn (x) x) (do (def r (mk (- n 1))) (fn (x) (r (+ x n))))))", "(def q (mk " + a + "))", "(q 1)" });
		hist({ "(def s 0) (defn w (n) (do (setf s (+ s n)) (def s n) (if (> n 0) (w (- n 1))) (first (list s))))", "(w " + a + ")", "(list s)" });
	}
	// which function a name at the head of a call, or handed over, means
	const char * fdef[] = { "", "(defn G (q) (list L q))", "(def G (fn (q) (list L q (argscount))))", "(gdefn G (q) (list L q))", "(def G list)", "(define-macro-eval G (q) (list L q q))" };
	for (auto nm : { "g", "len", "list2" }) for (int b0 = 0; b0 < 6; ++b0) for (int b1 = 0; b1 < 6; ++b1) for (int b2 = 0; b2 < 5; ++b2) for (int b3 = 0; b3 < 3; ++b3) for (int arg = 0; arg < 3; ++arg) for (auto use : { "(G 1)", "(list (G '(1 2)) (apply G '((3))) (map G '(\"ab\")))", "(apply (fn (f) (f '(7))) (list G))", "(do (def h G) (h \"abc\"))", "(eval '(G \"x\"))", "(evalstr \"(G '(9))\")" })
	{
		if (!w.thorough() && b3 && arg) continue;
		auto sub = [&](const std::string & t, int level) { std::string s; for (char c : t) { if (c == 'G') s += nm; else if (c == 'L') s += std::to_string(level * 100); else s += c; } return s; };
		std::string f3 = "(defn in3 (" + std::string(arg == 2 ? nm : "z") + ") (do " + sub(fdef[b3], 3) + " " + sub(use, 0) + "))";
		std::string f2 = "(defn in2 (" + std::string(arg == 1 ? nm : "y") + ") (do " + sub(fdef[b2], 2) + " " + f3 + " (in3 (fn (q) (list 30 q)))))";
		std::string f1 = "(defn in1 (x) (do " + sub(fdef[b1], 1) + " " + f2 + " (list (in2 (fn (q) (list 20 q))) " + sub("(G '(5))", 0) + ")))";
		hist({ sub(fdef[b0], 0) + " (nop)", f1, "(in1 4)", sub("(G '(6))", 0), "(in1 5)" });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P07",
		"all sequences of up to 3 (thorough 4) of 18 definitions, assignments, deletions and calls in a function body, at top level and over several evaluations; 4^4 binding forms of one name at four levels x formal arguments x 5 ways to use the inner function; closures of closures up to depth 4 (5), called by every sequence of 3 names; functions defined inside of functions up to depth 4 (5) by every sequence of 3 names; closures nested up to depth 30 (60) in 4 forms, up to 80 (200) captured variables; all call sequences up to length 4 (5) of 11 calls on closures that share variables; recursion depths 0..12; functions and macros of one name on up to four levels, called and handed over in 6 ways",
		"reference interpreter with its own environments: value of every evaluation and every global after it", {}, explore });
}
