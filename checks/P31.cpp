// Assignments to places.
#include "diff.h"
#include "gram.h"
static void explore(mc::W & w)
{
	const std::string pre = "(def a (list 1 2 3)) (def b (list (list 4 5) (list 6 (list 7 8)) 9)) (def c a) (def n 1) (def s \"str\") (def e (list)) (def log (list)) (defn note (k v) (do (push k log) (return v))) (defn get (l i) (nth i l)) (defn second (l) (first (rest l))) (defn thelist () (do (nop) (return b)))";
	const std::string look = "(list a b c n s e log)";
	// places
	const char * places[] = { "a", "n", "s", "(first a)", "(last a)", "(car a)", "(nth 0 a)", "(nth 2 a)", "(nth n a)", "(nth (- n 1) a)", "(nth 3 a)", "(nth -1 a)", "(first e)", "(last e)", "(nth 0 e)", "(first (first b))", "(first (rval (first b)))", "(nth 1 (rval (nth 1 b)))", "(last (rval (nth 1 b)))", "(first (rval (last (rval (nth 1 b)))))", "(nth 0 (rval (nth 1 (rval (nth 1 b)))))", "(first (rval (first a)))", "(nth (rval (first a)) a)", "(nth (rval (len e)) a)", "(first (rest a))", "(last (append a))", "(first (list 1 2))", "(first s)", "(nth 0 s)", "(first n)", "(nth 0 undefined-x)", "undefined-x", "(note 1 2)", "(get a 1)", "(first (thelist))", "(first (rval (thelist)))", "(nth (note 1 1) a)", "(nth (rval (note 1 1)) a)", "(first (note 1 a))", "(first (rval (note 1 a)))", "'a", "\"n\"", "5", "#t", "NIL", "(list 1 2)", "()", "(if #t a b)", "(sym \"n\")", "(rval 'n)", "(rval (first '(n a)))", "(second a)", "(do (first a))", "(nth 1)", "(nth \"1\" a)", "(nth 1.0 a)", "first", "(nth 1 c)", "(nth 1 (first (list a)))", "(nth 1 (rval (first (list a))))" };
	const char * vals[] = { "0", "\"v\"", "(list 1)", "a", "(first a)", "(nth 1 a)", "(note 2 77)", "NIL", "b", "(setf n 2)", "(setf (first a) 5)", "(push 3 a)", "(pop a)", "(undefined-f)", "(first e)", "(fn (x) x)", "'q", "(do (setf n 0) (list n))" };
	auto ok = [](const std::string & p) { return true; };
	(void)ok;
	for (auto p : places) for (auto v : vals)
	{
		std::string f = std::string("(setf ") + p + " " + v + ")";
		w.item([&]() { return f; }, [&]() -> std::string
		{
			std::string bad = diff::history(w, { pre, f, look, f, look });
			if (bad.empty()) bad = diff::history(w, { pre, "(list " + f + " (len log))", look, "(setf n 0)", "(setf (first a) 11)", look });
			if (bad.empty()) bad = diff::history(w, { pre, "(defn fun (a n) (do " + f + " (list a n)))", "(fun (list 10 20 30) 0)", look, "(fun c 2)", look });
			if (bad.empty()) bad = diff::history(w, { pre, "(defn fun () (do (def a (list 10 20 30)) (def n 0) (defn in () " + f + ") (in) (list a n)))", "(fun)", look });
			if (bad.empty()) bad = diff::history(w, { pre, "(defn fun (i) (do (while (< i 3) (do " + f + " (setf i (+ i 1)))) (list i)))", "(fun 0)", look });
			if (bad.empty()) bad = diff::history(w, { pre, "(define-macro-eval mac (x) (setf " + std::string(p) + " x))", std::string("(mac ") + v + ")", look });
			if (bad.empty()) bad = diff::history(w, { pre, "(map (fn (i) " + f + ") '(1 2))", look });
			return bad;
		});
	}
	// all histories of assignments
	std::vector<std::string> ops = { "(setf a (list 1 2))", "(setf c a)", "(setf (first a) c)", "(setf (first a) 9)", "(setf (nth 1 c) n)", "(setf n (+ n 1))", "(setf (last b) a)", "(setf (first (rval (last b))) 8)", "(setf (nth 0 (rval (first b))) 3)", "(setf a b)", "(setf b (first b))", "(inc)", "(setf (nth n b) 0)", "(defn inc () (setf n 7))", "(def k (fn (v) (setf (first a) v)))", "(k n)", "(setf s (+ s n))" };
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo o(n, (int)ops.size());
		do
		{
			std::vector<std::string> h = { pre + " (defn inc () (setf n (+ n 1))) (defn k (v) (setf (nth 1 a) v))" };
			for (int d : o.d) h.push_back(ops[d]);
			h.push_back("(list n s (len a) (len b))");
			w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); });
		} while (o.next());
	}
	// where a variable is found: every combination of definitions in three nested functions and outside
	for (int m = 0; m < 64; ++m) for (auto v : { "(setf x 99)", "(setf x (+ x 1))", "(setf (first l) 99)", "(do (setf x 1) (setf x (+ x x)))", "(gdef x 99)", "(def x 99)", "(delvar 'x)", "(setf 'x 5)" })
	{
		std::string p0 = (m & 1) ? "(def x 10) (def l (list 10 0))" : "(nop)";
		std::string d1 = (m & 2) ? "(def x 20) (def l (list 20 0))" : "(nop)", d2 = (m & 4) ? "(def x 30) (def l (list 30 0))" : "(nop)", d3 = (m & 8) ? "(def x 40) (def l (list 40 0))" : "(nop)";
		std::string a3 = (m & 16) ? "(x l)" : "()", a2 = (m & 32) ? "(x l)" : "()";
		std::string f = "(defn f1 () (do " + d1 + " (defn f2 " + a2 + " (do " + d2 + " (defn f3 " + a3 + " (do " + d3 + " " + v + " (list x l))) (list (f3 3 (list 3)) x l))) (list (f2 2 (list 2)) x l)))";
		w.item([&]() { return p0 + " " + f; }, [&]() { return diff::history(w, { p0, f, "(list (f1) x l)", "(list x l)", "(f1)" }); });
	}
	// every element of lists of every length, places of every depth, long histories
	for (int n = 1; n <= (w.thorough() ? 100 : 40); ++n)
	{
		std::string ls = "(def a (list"; for (int i = 0; i < n; ++i) ls += " " + std::to_string(i); ls += "))";
		for (int k = 0; k <= n; k += n > 20 && !w.thorough() ? 3 : 1)
		{
			std::string K = std::to_string(k);
			w.item([&]() { return "element " + K + " of " + std::to_string(n); }, [&]() -> std::string { return diff::history(w, { ls + " (def c a) (def b (list a a))", "(setf (nth " + K + " a) \"v\")", "(list a c b)", "(defn fun (l i) (do (setf (nth i l) (list i)) (list l)))", "(fun c " + K + ")", "(list a c b)", "(setf (nth (- " + K + " 1) (rval (first b))) 9)", "(setf (last a) (first a))", "(list a c b)" }); });
		}
		std::string deep = "(list 1 2)", place = "d", get = "d";
		for (int i = 0; i < n; ++i) { deep = i % 2 ? "(list " + deep + " " + std::to_string(i) + ")" : "(list " + std::to_string(i) + " " + deep + ")"; }
		for (int i = n; i-- > 0;) { place = std::string(i % 2 ? "(rval (first " : "(rval (last ") + place + "))"; get = std::string(i % 2 ? "(first " : "(last ") + get + ")"; }
		w.item([&]() { return "depth " + std::to_string(n); }, [&]() -> std::string { return diff::history(w, { "(def d " + deep + ") (def e d)", "(setf (first " + place + ") 77)", "(list d e " + get + ")", "(setf (nth 1 " + place + ") " + get + ")", "(list (len " + get + ") (first " + get + "))", "(defn fun (d) (do (setf (last " + place + ") 5) (list d)))", "(fun e)", "(list d)" }); });
		std::vector<std::string> h = { pre }; for (int i = 0; i < n; ++i) h.push_back(ops[(i * 5 + i / 3) % ops.size()].find("rval (") == std::string::npos && (i * 5 + i / 3) % (int)ops.size() != 2 && (i * 5 + i / 3) % (int)ops.size() != 6 ? ops[(i * 5 + i / 3) % ops.size()] : "(setf n (+ n 2))"); h.push_back("(list n s (len a))"); w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); });
		// names of variables of every length
		std::string v(n * 2, 'v'); w.item([&]() { return "name " + v; }, [&]() -> std::string { return diff::history(w, { "(def " + v + " 1) (def " + v + "v 2) (def " + v + "V 3)", "(setf " + v + "v 5)", "(list " + v + " " + v + "v " + v + "V)", "(defn f (" + v + ") (do (setf " + v + " 8) (setf " + v + "V 9) (list " + v + " " + v + "V)))", "(f 0)", "(list " + v + " " + v + "v " + v + "V)" }); });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P31",
		"58 places x 18 values, assigned at top level, repeatedly, in functions, closures, loops, macros and mapped functions; all histories up to length 3 (thorough 4) of 17 assignments; 64 combinations of definitions in three nested functions x 8 assignments; every (third) element of lists up to length 40 (100), places of depth 1..40 (100), long histories, names of every length",
		"reference interpreter: value of the assignment, order of evaluation and all variables afterwards", {}, explore });
}
