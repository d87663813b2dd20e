// Histories of operations on lists that are shared.
#include "diff.h"
static void explore(mc::W & w)
{
	std::vector<std::string> ops = { "(push 7 a)", "(push 8 b 1)", "(pop a)", "(pop b 1)", "(setf (first a) 5)", "(setf (last b) 6)", "(setf (nth 1 a) b)", "(def b a)", "(setf b (append a b))", "(setf a (rest a))", "(def c (list a b))", "(push a c)", "(pop (first c))", "(setf (nth 0 (nth 1 c)) 9)", "(def a (list))", "(setf a (reverse b))", "(setf (first (rest c)) 3)", "(map (fn (x) x) a)", "(def c '(1 2))", "(push (list 1) a 2)", "(setf (nth 2 a) (pop b))", "(h a)", "(setf c a)", "(pop a 2)" };
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); }); };
	const std::string pre = "(def a (list 1 2 3)) (def b (list 4 5)) (def c (list a 6)) (defn h (z) (do (push 0 z) (setf (last z) 1) (setf z 5)))";
	int no = (int)ops.size();
	for (int n = 1; n <= (w.thorough() ? 5 : 3); ++n)
	{
		mc::Odo d(n, n <= 4 ? no : 14);
		do { std::vector<std::string> v = { pre }; for (int i : d.d) v.push_back(ops[i]); hist(v); } while (d.next());
	}
	// quick: depth 5 over the operations of one list and its alias
	std::vector<std::string> o2 = { "(push 7 a)", "(pop a)", "(push 8 b 1)", "(pop b 1)", "(setf (nth 1 a) 0)", "(setf (last b) 6)", "(def b a)", "(def b (append a))" };
	for (int n = 4; n <= (w.thorough() ? 7 : 5); ++n)
	{
		mc::Odo d(n, 8);
		do { std::vector<std::string> v = { "(def a (list 1 2)) (def b a)" }; for (int i : d.d) v.push_back(o2[i]); hist(v); } while (d.next());
	}
	// lists of every length: push, pop and assignment at every position
	for (int n = 0; n <= (w.thorough() ? 100 : 44); ++n) for (int k = -1; k <= n + 1; ++k)
	{
		std::string ls = "(def a (list"; for (int i = 0; i < n; ++i) ls += " " + std::to_string(i); ls += ")) (def b a)";
		std::string K = std::to_string(k);
		for (auto o : { "(push 99 a " + K + ")", "(pop a " + K + ")", "(setf (nth " + K + " a) 99)", "(nth " + K + " a)", "(setf (nth " + K + " (append a)) 99)" })
			hist({ ls, o, "(list a b (len a))", o, "(list a b (len b))" });
	}
	// fill and drain
	for (int n = 1; n <= (w.thorough() ? 300 : 64); ++n)
	{
		std::string N = std::to_string(n);
		hist({ "(def a (list 0))", "(do (def i 0) (while (< i " + N + ") (do (setf i (+ i 1)) (push i a))) (first (list a)))", "(do (def s (list 0)) (while (> (len a) 1) (push (pop a) s)) (first (list s)))", "(list a (len s))" });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P11",
		"all histories up to length 3 (thorough 4, and 5 over 14 operations) of 24 operations on three variables that share lists; all histories up to length 5 (7) of 8 operations on a list and its alias; push, pop and assignment at every position of lists of every length 0..44 (100); filling and draining 1..64 (300) elements",
		"reference interpreter: value of every step and all variables after every step", {}, explore });
}
