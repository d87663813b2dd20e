// Stepping through programs.
#include "dbg.h"
#include "diff.h"
#include "scratch.h"
#include <cstring>
static scratch::Dir dir;
typedef std::map<std::string, std::string> Files;
static void explore(mc::W & w)
{
	const Files mods = { { "m.fuel", "(def mv 5)\n(defn mf (x)\n (do\n  (+ x mv)))" }, { "bad.fuel", "(def bv 1)\n(list\n (last (list)))" } };
	const std::vector<std::string> progs = {
		"(println 1)\n(println 2)",
		"(defn f (x)\n  (list x 1))\n(println (f 1)\n  (f 2))",
		"(defn fac (n)\n (if (<= n 1)\n  1\n  (* n (fac\n   (- n 1)))))\n(println (fac 3))",
		"(def i 0)\n(while (< i 2)\n (do\n  (println i)\n  (setf i (+ i 1))))",
		"(defn mk (a)\n (fn (b)\n  (list a b)))\n(def g (mk 1))\n(println (g 2))\n(map g '(3 4))",
		"(define-macro-eval mac (a b)\n (list a\n  b))\n(def v 3)\n(mac (+ v 1)\n (nop))",
		"(define-macro-expand mac2 (a)\n (list '+ a\n  1))\n(defn h (x)\n (mac2 x))\n(h 2)",
		"(def s \"(+ 1\\n 2)\")\n(println (evalstr s))\n(eval '(list 1\n 2))",
		"(import \"m.fuel\")\n(println (mf 1))\n(mf\n mv)",
		"(defn r (x)\n (do\n  (if x (return 1))\n  (println 2)))\n(r #t)\n(r #f)",
		"(defn a1 (x) (b1 x))\n(defn b1 (y) (c1 y y))\n(defn c1 (z q) (list z q))\n(a1 1)\n(a1 2)",
		"(println 1)\n(break)\n(defn bb (x)\n (do (break) (first (list x))))\n(bb 3)",
		"(println `(1 ,(+ 1 1)\n ,@(list 3 4)))\n(and #t (not #f)\n (or #f #t))\n(reduce (fn (x y)\n (+ x y)) '(1 2) 0)",
		"(defn p (x)\n (apply (fn (y)\n  (list y)) (list x)))\n(p \"s\")\n; comment\n(def l (list 1 2))\n(setf (nth 1 l)\n (p 1))",
		"(defn e (x)\n (first x))\n(println 1)\n(e (list))\n(println 2)",
		"(defn outer (x)\n (do\n  (defn inner (y)\n   (* y x))\n  (inner (inner x))))\n(outer 2)",
	};
	auto one = [&](const std::string & p, const std::string & mod, const std::vector<std::string> & c)
	{
		w.item([&]() { return mc::q(p) + " as " + mod + ": " + diff::join(c, "; "); }, [&]() -> std::string
		{
			Files f = mods; if (mod != "command-line") f[mod] = p;
			static Files on; if (on != f) { dir.enter(); for (auto & x : f) scratch::put(x.first, x.second); on = f; }
			return dbg::session(w, p, mod, c, f);
		});
	};
	const char * go[] = { "s", "v", "o", "r" };
	for (auto & p : progs)
	{
		int lines = 1; for (char c : p) lines += c == '\n';
		// all sequences of commands that continue the program
		for (int k = 0; k <= (w.thorough() ? 8 : 6); ++k) { mc::Odo o(k, 4); do { std::vector<std::string> c; for (int d : o.d) c.push_back(go[d]); one(p, "prog.fuel", c); } while (o.next()); }
		// every stop of the program with every question
		const std::vector<std::string> ask = { "k", "d", "u", "l", "g", "c", "list", "(list 1 2)", "(nosuch)", "(def x 77)", "(setf v 88)", "(def z 1)" , "(return 5)", "(println \"here\")", "(evalstr \"(first (list))\")", "(evalstr \"(def z 2)\")" };
		for (auto & a : ask) for (auto & b : ask) for (int n = 0; n < 40; ++n)
		{
			std::vector<std::string> c(n, "s"); c.push_back(a); c.push_back(b); c.push_back("l"); c.push_back("s"); c.push_back("k"); c.push_back("v"); c.push_back("r");
			one(p, n % 2 ? "prog.fuel" : "command-line", c);
		}
		const char * move[] = { "d", "u", "k", "l", "(list x y)", "v", "o" };
		for (int n = 2; n < 40; n += w.thorough() ? 1 : 3) { mc::Odo o(w.thorough() ? 4 : 3, 7); do { std::vector<std::string> c(n, "s"); for (int d : o.d) c.push_back(move[d]); c.push_back("s"); one(p, "prog.fuel", c); } while (o.next()); }
		// every breakpoint, every pair of them, and every way to continue
		for (int a = 1; a <= lines + 1; ++a) for (int b = a; b <= lines + 1; ++b) { mc::Odo o(w.thorough() ? 5 : 4, 4); do { std::vector<std::string> c = { "b " + std::to_string(a), "b " + std::to_string(b) }; for (int d : o.d) c.push_back(go[d]); one(p, "prog.fuel", c); } while (o.next()); }
		for (int a = 1; a <= lines; ++a) for (auto cond : { "#t", "#f", "(> x 1)", "(== i 1)", "nosuch", "(nosuch)", "(first (list))", "(do (println \"c\") (first (list #t)))", "(return #t)", "(do (def x 9) (first (list #f)))", "(do (setf i 1) (first (list #f)))", "5" }) for (auto g1 : go) for (auto g2 : go) one(p, "prog.fuel", { "b " + std::to_string(a) + " " + cond, "r", g1, "l", g2, "k", "r" });
		for (int a = 1; a <= 4; ++a) for (auto g1 : go) for (auto g2 : go) for (auto g3 : go) one(p, "prog.fuel", { "b m.fuel:" + std::to_string(a), g1, g2, "c", g3, "k", "r" });
	}
	// long names, values, stacks, programs and module names
	for (int n = 1; n <= (w.thorough() ? 120 : 60); ++n) for (int k = 0; k < 6; ++k)
	{
		std::string name(n, 'f'), val(4 * n, 'v'), pre, mod = "prog.fuel", depth = "2";
		if (k == 1) for (int i = 0; i < n * (w.thorough() ? 40 : 20); ++i) pre += i % 7 ? "\n" : "; c\n";
		if (k == 2) depth = std::to_string(n * 2);
		if (k == 3) mod = std::string(n, 'm') + ".fuel";
		if (k == 4) for (int i = 0; i < n; ++i) pre += "(def w" + std::to_string(i) + " " + std::to_string(i) + ")\n";
		int at = 1; for (char c : pre) at += c == '\n';
		std::string p = pre + "(defn " + name + " (n " + name + "a)\n (if (== n 0)\n  (list n)\n  (" + name + " (- n 1) \"" + val + "\")))\n(def " + (k == 5 ? val : "q") + " (" + name + " " + depth + " '(1 2 " + val + ")))\n(println\n 1)";
		std::string l = std::to_string(at + 2);
		one(p, mod, { "b " + l, "b " + std::to_string(at + 5), "r", "k", "l", "list", "d", "d", "k", "l", "u", "k", "o", "k", "g", "s", "k" });
		one(p, mod, { "b " + mod + ":" + l + " (== n 0)", "list", "r", "c", "k", "v", "o", "l", "k", "g", "modules", "r" });
		if (k == 2) { std::vector<std::string> c = { "b " + l, "r" }; for (int i = 0; i <= 2 * n; ++i) c.push_back("d"); c.push_back("k"); c.push_back("l"); c.push_back("u"); c.push_back("l"); c.push_back("v"); c.push_back("k"); one(p, mod, c); }
	}
	// what is left after an error, programs without a result, restart
	const std::vector<std::string> last = { "(def v 1)\n(println v)\n(nosuch\n v)", "(defn e (x)\n (first x))\n(defn f (y)\n (do\n  (e y)))\n(println 1)\n(f (list))", "", "; nothing", "(def n 1)\n(import \"bad.fuel\")", "(define-macro-eval mac (a)\n (first a))\n(mac\n (list))", "(list 1", "(def n 3)\n(while (> n 0)\n (do (setf n (- n 1))\n  (/ 6 n)))" };
	const char * post[] = { "restart", "s", "r", "v", "g", "k", "d", "(def v 5)", "(list v)", "b 2", "c" };
	for (auto & p : last) for (auto mod : { "prog.fuel", "command-line" }) for (int k = 0; k <= (w.thorough() ? 5 : 4); ++k) { mc::Odo o(k, 11); do { std::vector<std::string> c; for (int d : o.d) c.push_back(post[d]); one(p, mod, c); } while (o.next()); }
	// a breakpoint inside of what is stepped over ends that step: nothing of it is left for the prompt and for the other levels of the stack
	for (auto & p : progs)
	{
		int lines = 1; for (char c : p) lines += c == '\n';
		for (int a = 1; a <= lines; ++a) for (int n = 0; n <= 8; ++n) for (auto g1 : { "v", "o", "s" }) for (int down = 0; down <= 3; ++down) for (auto ex : { "(list 1)", "(println (list 2) \"q\")", "(do (def zz 1) (setf zz 2))", "(evalstr \"(list 3)\")" }) for (auto g2 : { "r", "v", "o", "s" })
		{
			if (!w.thorough() && (n % 2 || (down && ex[1] == 'e'))) continue;
			std::vector<std::string> c(n, "s"); c.push_back("b " + std::to_string(a)); c.push_back(g1); for (int i = 0; i < down; ++i) c.push_back("d"); c.push_back(ex); c.push_back("k"); c.push_back(g2); c.push_back(ex); c.push_back("l"); c.push_back("r"); c.push_back(ex);
			one(p, "prog.fuel", c);
		}
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P23",
		"names, values, module names, programs and call stacks of every length up to 60 (120) characters, 1200 (4800) lines and 120 (240) calls; 16 programs (calls, recursion, loops, closures, macros, evalstr, modules, return, break, errors): all sequences up to length 6 (thorough 8) of step, over, out, run; every pair of 14 questions at each of the first 40 stops; all sequences of 3 (4) moves in the call stack and questions; every pair of breakpoint lines with all continuations of length 4 (5); 12 conditions in every line; 8 programs that fail or have no result with all sequences up to length 4 (5) of 11 commands including restart; breakpoints in every line inside of steps from the first 8 stops, with expressions evaluated on every level of the stack",
		"reference debugger on the reference interpreter: the complete transcript (stops with position, answers, output of the program) and the result",
		{ "the text of error messages is not judged; expressions of the prompt that run into a breakpoint are not judged" }, explore });
}
