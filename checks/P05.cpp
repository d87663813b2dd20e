// Equality and order: model, and the laws on all pairs and triples.
#include "diff.h"
static void explore(mc::W & w)
{
	std::vector<std::string> pool = { "0", "1", "2", "-1", "1.0", "1.5", "2.0", "0.0", "2147483647", "\"\"", "\"1\"", "\"a\"", "\"b\"", "\"ab\"", "\"A\"", "\"NIL\"", "\"#t\"", "\"1.000000\"", "#t", "#f", "NIL", "'a", "'b", "'nil1", "(list)", "(list NIL)", "'(1)", "(list 1)", "(list 1.0)", "'(1 2)", "(list 1 2)", "(list 2 1)", "(list 1 2 3)", "'(a b)", "(list 'a 'b)", "'((1) 2)", "(list (list 1) 2)", "(list \"a\")", "(list \"a\" \"b\")", "(list (list))", "'(())", "(nop)", "(list #t)", "d", "e", "(list d)", "lst", "lst2", "(quote 1)", "(if #f 1)", "f", "+", "'(a 1.5 \"s\" #t NIL (x))", "(list 'a 1.5 \"s\" #t NIL (list 'x))" };
	const std::string pre = "(def d (make-dict)) (def e (make-dict)) (def lst (list 1 2)) (def lst2 lst) (defn f () 1) ";
	const char * ops[] = { "==", "!=", "=", "equal", "<", ">", "<=", ">=" };
	auto one = [&](const std::string & p) { w.item([&]() { return p; }, [&]() { return diff::program(w, p); }); };
	for (auto op : ops) for (auto & a : pool) for (auto & b : pool)
	{
		one(pre + "(" + op + " " + a + " " + b + ")");
		one(pre + "(def x " + a + ") (def y " + b + ") (list (" + op + " x y) x y)");
	}
	// laws on the implementation alone
	int np = (int)pool.size();
	for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j)
		w.item([&]() { return "laws " + pool[i] + " " + pool[j]; }, [&]() -> std::string
		{
			auto ask = [&](const std::string & q) { fx::Session s; s.eval(pre + "(def x " + pool[i] + ") (def y " + pool[j] + ")"); w.traces(1); return s.eval(q).brief(); };
			std::string eq = ask("(== x y)"), qe = ask("(== y x)"), ne = ask("(!= x y)");
			w.steps(3); w.outcome(eq + ne);
			if (eq != qe) return "== is not symmetric: " + eq + " / " + qe;
			if (eq != "ERR" && (eq == "#t") == (ne == "#t")) return "!= is not the negation of ==: " + eq + " / " + ne;
			std::string lt = ask("(< x y)"), gt = ask("(> y x)"), le = ask("(<= x y)"), ge = ask("(>= y x)");
			if (lt != gt) return "(< x y) and (> y x) differ: " + lt + " / " + gt;
			if (le != ge) return "(<= x y) and (>= y x) differ: " + le + " / " + ge;
			if (lt == "#t" && le != "#t") return "(< x y) without (<= x y)";
			if (ask("(== x x)") == "#f") return "== is not reflexive";
			return "";
		});
	// strings and numbers: total orders, all triples
	std::vector<std::string> strs = { "\"\"", "\"a\"", "\"b\"", "\"aa\"", "\"ab\"", "\"B\"", "\"a \"", "\"1\"", "\"10\"", "\"9\"", "\"abcdefghijklmnopqr\"", "\"abcdefghijklmnopqs\"" };
	std::vector<std::string> nums = { "-2147483648", "-1", "0", "1", "2", "10", "2147483647", "-1.5", "0.5", "1.0", "1.5", "1e10", "10000000001.0", "1000000000", "1000000001", "1000000000.5", "16777216.0", "16777217.0", "2147483646.5", "0.1", "0.1001" };
	// numbers of every magnitude that differ by a unit or by a half
	for (int e = 0; e <= 14; ++e) for (int k = 0; k < 4; ++k)
	{
		std::string z(e, '0'), a = "1" + z + ".0", b = k == 0 ? "1" + z + ".5" : k == 1 ? (e ? "1" + z.substr(1) + "1.0" : "2.0") : k == 2 ? "-1" + z + ".0" : "1" + z + ".25";
		for (auto op : ops) { one("(" + std::string(op) + " " + a + " " + b + ")"); one("(" + std::string(op) + " " + b + " " + a + ")"); one("(" + std::string(op) + " (list " + a + ") (list " + b + "))"); }
	}
	// numbers that are almost equal, around and beyond the tolerance of ==
	for (auto base : { "0.", "1.", "-1.", "1000." }) for (int e = 1; e <= 12; ++e) for (auto dig : { "1", "4", "6", "9", "09", "11" })
	{
		std::string a = std::string(base) + "0", b = base + std::string(e - 1, '0') + dig;
		for (auto op : ops) { one("(" + std::string(op) + " " + a + " " + b + ")"); one("(" + std::string(op) + " " + b + " " + a + ")"); }
		one("(list (== (list 1 " + a + ") (list 1 " + b + ")) (if (< " + a + " " + b + ") 1 2) (- " + b + " " + a + "))");
	}
	// strings of every length that differ in one place
	for (int n = 1; n <= (w.thorough() ? 1200 : 300); n += 1 + n / 24) for (int k : { 0, n / 2, n - 1, n })
	{
		std::string a(n, 'x'), b = a; if (k < n) b[k] = 'y'; else b += "x";
		for (auto op : ops) { one("(" + std::string(op) + " \"" + a + "\" \"" + b + "\")"); one("(" + std::string(op) + " \"" + b + "\" \"" + a + "\")"); }
		one("(list (== '" + a + " '" + b + ") (== '" + a + " '" + a + "))");
	}
	for (auto & set : { strs, nums }) for (auto & a : set) for (auto & b : set) for (auto & c : set)
		w.item([&]() { return "order " + a + " " + b + " " + c; }, [&]() -> std::string
		{
			fx::Session s;
			std::string r = s.eval("(list (< " + a + " " + b + ") (< " + b + " " + c + ") (< " + a + " " + c + ") (== " + a + " " + b + ") (== " + b + " " + c + ") (== " + a + " " + c + ") (<= " + a + " " + b + ") (< " + b + " " + a + "))").brief();
			w.traces(1); w.steps(8); w.outcome(r); w.state(r);
			if (r.size() < 24) return "unexpected " + r;
			auto t = [&](int k) { return r[2 + 3 * k] == 't'; };
			if (t(0) && t(1) && !t(2)) return "< is not transitive";
			if (t(3) && t(4) && !t(5)) return "== is not transitive";
			if (t(3) && t(4) == false && t(1) != t(2)) return "equal operands compare differently";
			if ((t(0) ? 1 : 0) + (t(7) ? 1 : 0) + (t(3) ? 1 : 0) != 1) return "not exactly one of <, >, ==";
			if (t(6) != (t(0) || t(3))) return "<= is not < or ==";
			return "";
		});
	// lists of every length that differ in one place
	for (int n = 1; n <= (w.thorough() ? 80 : 24); ++n) for (int k = 0; k <= n; ++k)
	{
		std::string a = "(list", b = "(list", c = "(list";
		for (int i = 0; i < n; ++i) { a += " " + std::to_string(i); b += " " + std::to_string(i == k ? i + 1 : i); c += i == k ? " 'q" + std::to_string(i) : " " + std::to_string(i); }
		one("(list (== " + a + ") " + b + ")) (!= " + a + ") " + b + ")))");
		one("(== " + a + ") " + c + "))");
		one("(== " + a + ") " + a + " 1))");
	}
	for (int n = 30; n <= (w.thorough() ? 1500 : 400); n += 1 + n / 16) for (int k : { 0, 1, n / 2, n - 2, n - 1 })
	{
		const std::string mk = "(defn mk (n k v) (do (def l (list n)) (def i (- n 1)) (while (> i 0) (do (push (if (== i k) v i) l) (setf i (- i 1)))) (push (if (== 0 k) v 0) l) (return l))) ";
		std::string a = std::to_string(n), b = std::to_string(k);
		one(mk + "(def x (mk " + a + " -1 0)) (def y (mk " + a + " " + b + " 7777)) (def z (mk " + a + " " + b + " 'q)) (list (== x y) (!= y x) (== x z) (== z z) (== x (mk " + a + " -1 0)) (== x (rest x)) (== (list x y) (list x y)) (== (list x y) (list x z)))");
	}
	// and every depth
	for (int n = 1; n <= (w.thorough() ? 120 : 40); ++n) for (int k = 0; k <= n; ++k)
	{
		std::string a, b; for (int i = 0; i < n; ++i) { a += "(list 1 "; b += i == k ? "(list 2 " : "(list 1 "; }
		a += "5" + std::string(n, ')'); b += std::string(k == n ? "6" : "5") + std::string(n, ')');
		one("(list (== " + a + " " + b + ") (!= " + b + " " + a + ") (== " + a + " " + a + "))");
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P05",
		"8 comparison operators on all pairs of 54 values, directly and through variables; the laws on all these pairs; all triples of 12 strings and of 21 numbers; numbers of every magnitude 1..1e14 that differ by 1, 1/2 or 1/4, and numbers that differ by 1e-1..1e-13; strings of 1..300 (1200) characters that differ in one place; lists of every length 1..24 (thorough 80) differing at every position and of 30..400 (1500) elements; lists of every depth 1..40 (120) differing at every level",
		"reference interpreter; reflexivity, symmetry, negation, converse, trichotomy and transitivity evaluated on the implementation",
		{ "transitivity is not demanded across strings and numbers (they compare by text)" }, explore });
}
