// The standard library.
#include "diff.h"
#include "gram.h"
#include <cstdlib>
static std::string lib() { const char * r = getenv("MC_REPO"); return std::string(r ? r : "/repo") + "/Library/fuellib.fuel"; }
static void explore(mc::W & w)
{
	diff::Opt o; o.globals = false;
	auto run = [&](const std::vector<std::string> & h) -> std::string
	{
		diff::Pair p;
		p.m.library();
		fx::Out i = p.s.eval("(import \"" + lib() + "\")");
		std::string out = p.s.takeOutput();
		if (!i.ok() || !out.empty()) return "the library can not be imported: " + i.full() + " " + out;
		for (auto & c : h) { bool judged; std::string bad = p.step(w, c, o, judged); if (!bad.empty()) return bad; if (!judged) break; }
		return "";
	};
	auto hist = [&](const std::vector<std::string> & h) { w.item([&, h]() { return diff::join(h, " ;; "); }, [&]() { return run(h); }); };
	auto one = [&](const std::string & p) { hist({ p }); };
	// functions on all values
	const char * vals[] = { "'(1 2 3)", "(list)", "\"abc\"", "\"\"", "\"b\"", "1", "2", "1.0", "#t", "NIL", "'b", "(list \"b\" 'b 1)", "'((1 2) (3))", "(make-dict)", "d", "(list NIL)", "'(1)", "\"ab\"", "(list 1.0 #t)", "(fn (x) x)", "(list 1 2)", "(nop)" };
	const std::string pre = "(def d (make-dict)) (dict-set d \"k\" 1) (dict-set d 2 3) (def l (list 1 2 3 4)) (def i 50) (def max 60) (def key 70) (def container 80) (def result 90) (def __i 100) (def _list 110)";
	const std::string look = "(list i max key container result _list l)";
	for (auto f : { "second", "length", "strlen", "dict-len", "find", "foreach", "arg-list-expression", "arg-list-with-obj-expression", "create-call-expression", "isCpp", "isNET", "isHaxe" })
	{
		hist({ pre, std::string("(") + f + ")", std::string("(typestr ") + f + ")", look });
		for (auto a : vals)
		{
			hist({ pre, std::string("(") + f + " " + a + ")", look });
			for (auto b : vals) { hist({ pre, std::string("(") + f + " " + a + " " + b + ")", std::string("(list (") + f + " " + a + " " + b + "))", look }); }
		}
	}
	for (auto a : vals) for (auto t : { "(map length (list $ \"x\"))", "(map second (list '(1 2) $))", "(apply find (list 1 $))", "(foreach $ println)", "(foreach $ (fn (x) (println (typestr x) x)))", "(do (def s 0) (foreach $ (fn (x) (setf s (+ s 1)))) (list s))", "(foreach (list $ $) (fn (x) (foreach (list x 1) (fn (y) (println x y)))))", "(foreach (list 1 2) (fn (x) (do (return $) (println x))))", "(find $ (list $ $))", "(find $ (list 1 $))", "(find (first (list $)) l)", "(defn g (i key) (do (def p (find key l)) (list p i key))) (g $ 3)", "(list (second (list 1 $)) (length (list $ $)))", "(do (def v 0) (setq v $) (list v))", "(def r (list 0 0)) (setq (first r) $) (println r)", "(defn g (v) (do (setq v $) (list v))) (g 1)" })
	{
		std::string s; for (const char * p = t; *p; ++p) { if (*p == '$') s += a; else s += *p; }
		hist({ pre, s, look });
	}
	// find: every list and every key over small alphabets
	for (int n = 0; n <= (w.thorough() ? 5 : 4); ++n)
	{
		const char * el[] = { "1", "2", "\"1\"", "a", "1.0" };
		mc::Odo d(n, 5);
		do { std::string s; for (int k : d.d) s += std::string(" ") + el[k]; for (auto k : { "1", "2", "\"1\"", "'a", "3", "1.0" }) one(std::string("(find ") + k + " '(" + s + "))"); } while (d.next());
	}
	for (int n = 0; n <= 30; ++n) for (int k = -1; k <= n; ++k)
	{
		std::string s, t; for (int i = 0; i < n; ++i) { s += " " + std::to_string(i * 3); t += (char)('a' + i % 26); }
		one("(find " + std::to_string(k * 3) + " '(" + s + "))");
		if (k >= 0) one("(find \"" + std::string(1, (char)('a' + k % 26)) + "\" \"" + t + "\")");
	}
	for (int n = 0; n <= (w.thorough() ? 200 : 40); ++n)
	{
		std::string N = std::to_string(n);
		one("(do (def s 0) (dotimes (c " + N + ") (setf s (+ s c))) (list s))");
		one("(do (def s (list)) (dotimes (c " + N + ") (setf s (append s (list c)))) (def t 0) (def r (foreach s (fn (x) (setf t (+ t x))))) (list t r (length s)))");
		if (n <= 20) { one("(arg-list-expression " + N + ")"); one("(arg-list-with-obj-expression 'o " + N + ")"); one("(list (create-call-expression 'call 'm 'o " + N + ") (create-call-expression 'call \"m\" NIL " + N + "))"); }
	}
	// dotimes: counters and bodies, nested, in functions and closures
	const char * counts[] = { "0", "1", "3", "-1", "n", "(- n 1)", "2.5", "(len l)" };
	const char * bodies[] = { "(println c)", "(setf s (+ s c))", "(do (println c s) (setf s c))", "(setf n (- n 1))", "(setf c (+ c 1))", "(push c l2)", "(if (== c 1) (return 77) (println c))", "(if (== c 1) (first (list)))", "(def z c)", "(dotimes (k 2) (println c k))", "(dotimes (k c) (setf s (+ s k 1)))", "(foreach '(7 8) (fn (x) (println c x)))", "(setf fs (cons (fn () (list c)) fs))", "(nop)", "(while (< s 2) (setf s (+ s 1)))", "(eval '(println c))", "(h c)", "(do (def y (h c)) (println y))" };
	const std::string dpre = "(def n 3) (def s 0) (def l (list 1 2)) (def l2 (list 0)) (def fs (list)) (defn h (q) (do (dotimes (c q) (setf s (+ s 10))) (list s q)))";
	for (auto c : counts) for (auto b : bodies)
	{
		if (std::string(c) == "(len l)" && std::string(b).find("push") != std::string::npos) continue;
		std::string t = std::string("(dotimes (c ") + c + ") " + b + ")";
		hist({ dpre, t, "(list n s l2 (len fs))", t, "(list n s l2)", "(list c)" });
		hist({ dpre, "(defn q (n) (do " + t + " (list n s)))", "(q 3)", "(list n s l2)", "(q 1)", "(list n s l2)" });
		hist({ dpre + " (def c 99)", "(defn q () (do " + t + " (list n s c)))", "(q)", "(list n s c)" });
		hist({ dpre + " (def c 99)", t, "(list s)", "(list c)" });
		for (auto b2 : bodies) if (w.thorough() || b2 == bodies[0] || b2 == bodies[6] || b2 == bodies[9]) hist({ dpre, std::string("(dotimes (c ") + c + ") (do " + b + " " + b2 + "))", "(list n s l2)" });
	}
	// the function changes the list that foreach or find traverses, or what the library uses
	for (auto b : { "(push 0 l)", "(push 7 l 1)", "(pop l)", "(push x l 9)", "(setf l (list 8 9))", "(setf l (list))", "(setf (first l) (+ x 40))", "(setf (last l) (+ x 50))", "(setf (nth n l) 66)", "(def l (list 5))", "(setf l (append l l))", "(setf __i 7)", "(setf max 1)", "(setf container (list 9))", "(def max 1)", "(def __i 5)", "(foreach l (fn (q) (push q l)))", "(if (== x 2) (return 5) (push 1 l))", "(foreach (list 1 2) (fn (q) (setf n (+ n 100))))", "(setf fcn println)", "(delvar 'max)", "(delvar 'l)" })
		for (auto ls : { "(list)", "(list 1)", "(list 1 2 3)", "(list 3 2 1 2)" })
		{
			std::string def = std::string("(def l ") + ls + ") (def n 0) (def max 99) (def __i 88)";
			std::string f = std::string("(fn (x) (do (setf n (+ n 1)) (println x n) (if (< n 60) ") + b + " (nop))))";
			hist({ def, "(def r (foreach l " + f + "))", "(list n l max __i)" });
			hist({ def, "(foreach l " + f + ")", "(list n max __i)", "(list l)", "(foreach '(4 5) (fn (y) (println y)))" });
			hist({ def, "(defn h (l) (do (foreach l " + f + ") (list n l)))", "(h (list 1 2 3))", "(h l)", "(list n l max __i)" });
			hist({ def, "(def container l) (foreach container " + f + ")", "(list n l container)" });
		}
	// structs: every history of definitions and uses
	std::vector<std::string> ops = { "(defstruct point x y)", "(defstruct point y x z)", "(defstruct line a b)", "(defstruct empty)", "(def p (make-point 1 2))", "(def q (make-line p 5))", "(setf (get-point-x p) 9)", "(println (get-point-y p) (is-point-p p) p)", "(list (is-point-p q) (is-line-p q) (is-line-p p))", "(setf (get-point-y (rval (get-line-a q))) 7)", "(list (get-point-x (get-line-a q)) q p)", "(def p (make-point 3))", "(def p (make-point 4 5 6 7))", "(push 8 p)", "(list (make-empty) (is-empty-p (make-empty)) (is-empty-p p))", "(def r p)", "(get-point-z p)", "(foreach (list p q) (fn (e) (println (is-point-p e) e)))", "(defn mk (x) (do (defstruct loc x y) (list (make-loc x 1) (is-loc-p (make-loc 2 3)))))", "(mk 4)" };
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo d(n, n <= 3 ? 20 : 12);
		do
		{
			if (n == 3 && !w.thorough() && d.d[0] > 3 && d.d[0] != 18) continue;
			std::vector<std::string> h = { "(def p 0) (def q 0) (defstruct point x y)" }; for (int k : d.d) h.push_back(ops[k]); h.push_back("(list p q)"); hist(h);
		} while (d.next());
	}
	for (int n = 0; n <= 12; ++n) for (int a = 0; a <= n + 1; ++a)
	{
		std::string f, v; for (int i = 0; i < n; ++i) f += " f" + std::to_string(i);
		for (int i = 0; i < a; ++i) v += " " + std::to_string(i * 10);
		std::vector<std::string> h = { "(defstruct s" + f + ")", "(def v (make-s" + v + "))" };
		for (int i = 0; i < n; ++i) h.push_back("(list (get-s-f" + std::to_string(i) + " v) (do (setf (get-s-f" + std::to_string(i) + " v) \"n\") (len v)) v)");
		hist(h);
	}
	for (auto v : vals) for (auto t : { "(is-point-p $)", "(list (is-point-p (list $)) (is-point-p (cons '#point $)))", "(get-point-x (make-point $ 1))", "(do (def p (make-point 1 2)) (setf (get-point-y p) $) (first (list p)))", "(get-point-x $)", "(list (is-point-p (make-point $ $)) (make-point $ $))" })
	{
		std::string s; for (const char * p = t; *p; ++p) { if (*p == '$') s += v; else s += *p; }
		hist({ pre, "(defstruct point x y)", s });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P28",
		"12 library functions on all pairs of 22 values, 16 combined uses x 22 values, find on all lists up to length 4 (thorough 5), dotimes with 8 counts x 18 bodies in four contexts and all pairs with 3 (18) further bodies, repetition counts 0..40 (200), all histories up to length 3 (4) of 20 struct operations, structs with 0..12 fields and all numbers of arguments, struct functions on 22 values",
		"native implementation of the documented library functions in the reference interpreter (it does not evaluate the library): value, output and variables", {}, explore });
}
