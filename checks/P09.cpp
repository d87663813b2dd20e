// Control flow: if, while, do, return.
#include "diff.h"
#include "gram.h"
static void explore(mc::W & w)
{
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); }); };
	// statements: S over the counter i; loops are bounded by construction
	gram::G g;
	g.add('S', { "(print i)", "(return i)", "(return \"r\")", "(inc)", "(do $S $S)", "(do)", "(if (< i 2) $S $S)", "(if (== i 1) $S)", "(if #f $S)", "(while (< (inc) 4) $S)", "(while (lim) (do $S $S))", "(h)", "(def v $S)", "(list $S $S)", "(k i)", "(apply (fn () $S) (list))", "(do (def q (fn () (do $S $S))) (q))", "(eval '$S)", "(begin $S $S)" });
	const std::string pre = "(def i 0) (def n 0) (defn inc () (do (setf i (+ i 1)) (first (list i)))) (defn lim () (do (setf n (+ n 1)) (< n 5))) (defn h () (do (print \"h\") (return 77) (print \"never\"))) (defn k (x) (do (while (< x 9) (do (setf x (+ x 1)) (if (== x 5) (return x)))) (print \"end\") (first (list x))))";
	auto one = [&](const std::string & s)
	{
		hist({ pre + " (defn f () (do " + s + " (print \"|\") " + s + " (first (list \"end\"))))", "(f)", "(list i n)" });
		hist({ pre, s, "(list i n)", s, "(print \"next\")" });
		hist({ pre + " (defn f (i) (do (while (< i 3) (do (setf i (+ i 1)) " + s + ")) (list i)))", "(list (f 0) (f 2))", "(list i n)" });
	};
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n) g.each('S', n, one);
	// conditions of every kind
	for (auto c : { "#t", "#f", "1", "0", "-1", "0.0", "0.5", "1e-9", "1e-7", "\"\"", "\"a\"", "NIL", "'s", "(list)", "(list 1)", "(nop)", "(== 1 1)", "(make-dict)", "f", "(print \"\")", "z", "(do)", "(if #f 1)" })
		for (auto p : { "(if $ 1 2)", "(if $ 1)", "(if $ (print \"a\") (print \"b\"))", "(do (def n 0) (while (and (< n 3) $) (do (setf n (+ n 1)))) (first (list n)))", "(not $)", "(and $ #t)", "(or $ #f)", "(and #f $)", "(or #t $)", "(do (def n 0) (def c $) (while c (do (setf n (+ n 1)) (if (> n 2) (setf c #f)))) (list n c))", "(do (def c $) (if c \"y\" \"n\"))" })
		{
			std::string s; for (const char * q = p; *q; ++q) { if (*q == '$') s += c; else s += *q; }
			hist({ "(def z 3) (defn f () 1)", s, "(list z)" });
		}
	// loops of every length; early exit at every point; nested loops
	for (int n = 0; n <= (w.thorough() ? 60 : 20); ++n) for (int k = 0; k <= n + 1; ++k)
	{
		std::string N = std::to_string(n), K = std::to_string(k);
		hist({ "(defn f (n) (do (def i 0) (def l (list)) (while (< i n) (do (setf i (+ i 1)) (if (== i " + K + ") (return (list \"at\" i l))) (push i l))) (list \"all\" i l)))", "(f " + N + ")", "(list (f " + N + ") (f " + K + "))" });
		hist({ "(def i 0) (while (< i " + N + ") (do (setf i (+ i 1)) (if (== i " + K + ") (return i) (print i))))", "(print \"after\") (list i)" });
		if (n <= 8) hist({ "(defn f () (do (def i 0) (while (< i " + N + ") (do (setf i (+ i 1)) (def j 0) (while (< j i) (do (setf j (+ j 1)) (print j) (if (== (* i j) " + K + ") (return (list i j))))))) (first (list \"none\"))))", "(f)" });
	}
	// the value of every form
	for (auto a : { "1", "\"s\"", "(list 1 2)", "'a", "NIL", "(nop)", "x", "#f", "(fn () 1)" }) for (auto p : { "(do $)", "(do (+ 1 2) (do (nop) $))", "(do (list $))", "(if #t $ 1)", "(if #f 1 $)", "(return $)", "(do (return $) (print 1))", "((fn () $))", "(do (def f (fn () $)) (f))", "(do (defn f () (return $)) (list (f) (f)))", "(do (defn f () (do (nop) (return $))) (list (f)))", "(begin (list $))", "(do (def i 0) (while (< i 2) (do (setf i (+ i 1)) (list $))))", "(eval '(do (list $)))" })
	{
		std::string s; for (const char * q = p; *q; ++q) { if (*q == '$') s += a; else s += *q; }
		hist({ "(def x 4)", s, "(print 2)", "(def r " + s + ")", "(list x)" });
	}
	// loops of many iterations and deeply nested statements
	for (int n = 1; n <= (w.thorough() ? 3000 : 600); n += n < 70 || w.thorough() ? 1 : 13)
	{
		std::string N = std::to_string(n);
		hist({ "(defn f (n) (do (def i 0) (def s 0) (while (< i n) (do (setf i (+ i 1)) (if (== i (- n 1)) (setf s i)))) (list i s)))", "(f " + N + ")", "(def i 0) (while (< i " + N + ") (setf i (+ i 1)))", "(list i)", "(defn g (n) (do (def i 0) (while #t (do (setf i (+ i 1)) (if (== i n) (return (list i)))))))", "(g " + N + ")" });
		if (n > 70) continue;
		for (auto in : { "(list x)", "(return (list x))", "(do (return x) (print \"no\"))", "(setf x 9)", "(g x)" }) for (int kind = 0; kind < 6; ++kind)
		{
			std::string s = in;
			for (int i = 0; i < n; ++i) switch (kind)
			{
				case 0: s = "(do " + s + ")"; break;
				case 1: s = "(do (nop) " + s + " (print \"b\"))"; break;
				case 2: s = i % 2 ? "(if #t " + s + " 0)" : "(if #f 0 " + s + ")"; break;
				case 3: s = i % 3 ? "(do " + s + ")" : "(do (def k" + std::to_string(i) + " 0) (while (< k" + std::to_string(i) + " 1) (do (setf k" + std::to_string(i) + " 1) " + s + ")))"; break;
				case 4: s = "(if (== x 9) (list 1) (do (def z " + std::to_string(i) + ") " + s + "))"; break;
				default: s = "((fn () " + s + "))"; s = "(do (def q (fn () " + s.substr(8, s.size() - 10) + ")) (q))"; break;
			}
			if (kind == 5 && n > 20) continue;
			hist({ "(def x 3) (defn g (a) (do (return (list a a)) (print \"never\")))", s, "(list x)", "(defn f (x) (do " + s + " (print \"end\") (list 7 x)))", "(f 4)", "(list x)" });
		}
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P09",
		"all statements up to size 3 (thorough 4) over 19 forms (loops, conditionals, returns, calls, eval), in a function, at top level and in a loop; 23 conditions x 11 forms; loops of every length 0..20 (60) left at every iteration; 9 values x 14 forms; loops of up to 600 (3000) iterations; five statements inside of 1..70 levels of do, if, while, function",
		"reference interpreter: values, printed trace, globals", { "loops of the explored programs are bounded" }, explore });
}
