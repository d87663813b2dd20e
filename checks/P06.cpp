// Short circuit and order of evaluation, observed through output.
#include "diff.h"
#include "gram.h"
static void explore(mc::W & w)
{
	const std::string pre = "(defn T (n) (do (print n \"\") (+ n 0) (== 1 1))) (defn F (n) (do (print n \"\") (== 1 2))) (defn V (n) (do (print n \"\") (+ n 0))) (defn g (a b) (do (print \"g\") (list a b))) (define-macro-eval m (a b) (list b a)) ";
	// number the leaves so that the output tells which ones ran, in which order
	auto number = [](const std::string & s) { std::string r; int n = 0; for (char c : s) if (c == '#') r += std::to_string(++n); else r += c; return r; };
	auto one = [&](const std::string & e) { std::string p = pre + number(e); w.item([&]() { return number(e); }, [&]() { return diff::program(w, p); }); };
	gram::G g;
	g.add('B', { "(T #)", "(F #)", "(and)", "(or)", "(and $B)", "(or $B)", "(and $B $B)", "(or $B $B)", "(and $B $B $B)", "(or $B $B $B)", "(not $B)", "(if $B $B $B)", "(&& $B $B)", "(|| $B $B)", "(== $B $B)", "(and $B 1)", "(or $B 1)" });
	for (int n = 1; n <= (w.thorough() ? 6 : 5); ++n) g.each('B', n, one);
	gram::G h;
	h.add('E', { "(V #)", "(+ $E $E)", "(list $E $E $E)", "(g $E $E)", "(if (T #) $E $E)", "(if (F #) $E $E)", "(if (T #) $E)", "(if (F #) $E)", "(do $E $E)", "(def x $E)", "(m $E $E)", "(< $E $E)", "(while (F #) $E)", "`(1 ,$E ,$E)", "(cons $E $E)", "(nth 0 (list $E $E))", "(apply g (list $E $E))", "(map (fn (a) (V a)) (list $E $E))", "(reduce (fn (a b) $E) (list 1 2) $E)", "(string $E $E)", "(quote $E)", "(print $E)", "((V #) $E)", "(and (T #) $E)", "(if $E 1 2)" });
	for (int n = 1; n <= (w.thorough() ? 5 : 4); ++n) h.each('E', n, one);
	// long chains: the first decisive operand ends the evaluation
	for (int n = 1; n <= 40; ++n) for (int k = 0; k <= n; ++k)
	{
		std::string a, o;
		for (int i = 0; i < n; ++i) { a += i == k ? " (F #)" : " (T #)"; o += i == k ? " (T #)" : " (F #)"; }
		one("(and" + a + ")"); one("(or" + o + ")");
	}
	// nesting of every depth: the operand that decides is found and nothing behind it runs
	for (int n = 1; n <= (w.thorough() ? 90 : 36); ++n) for (int k = 0; k <= n; k += (n > 12 && !w.thorough()) ? 3 : 1) for (int kind = 0; kind < 6; ++kind)
	{
		std::string s = kind % 2 ? "(F #)" : "(T #)";
		for (int i = n; i-- > 0;)
		{
			bool d = i == k;
			switch (kind / 2)
			{
				case 0: s = std::string("(and ") + (d ? "(F #) " : "(T #) ") + s + " (T #))"; break;
				case 1: s = std::string("(or ") + s + (d ? " (T #)" : " (F #)") + " (F #))"; break;
				default: s = i % 2 ? std::string("(and (T #) ") + s + (d ? " (F #))" : ")") : std::string("(or (F #) ") + s + (d ? " (T #))" : ")"); break;
			}
		}
		one(s); if (n <= 12) { one("(list " + s + " " + s + ")"); one("(if " + s + " (V #) (V #))"); }
	}
	// operands of calls, from left to right, each one once
	for (int n = 1; n <= (w.thorough() ? 120 : 50); ++n) for (auto f : { "list", "+", "(h ", "m1", "string", "do", "append" })
	{
		std::string a; for (int i = 0; i < n; ++i) a += " (V #)";
		if (f[0] == '(') { std::string p; for (int i = 0; i < n; ++i) p += " q" + std::to_string(i); one("(do (defn h (" + p + ") (list" + p + ")) (h" + a + "))"); one("(do (define-macro-eval h (" + p + ") (list" + p + ")) (h" + a + "))"); continue; }
		if (std::string(f) == "append") { std::string b; for (int i = 0; i < n; ++i) b += " (list (V #))"; one("(append" + b + ")"); continue; }
		if (std::string(f) == "m1") { std::string b = "(V #)"; for (int i = 0; i < n; ++i) b = "(list (V #) " + b + " (V #))"; one(b); continue; }
		one(std::string("(") + f + a + ")");
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P06",
		"all boolean terms up to size 5 (thorough 6) over 17 forms and all terms up to size 4 (5) over 25 forms whose leaves print their number; and/or chains of every length 1..40 with the decisive operand at every place; and/or nested to every depth 1..36 (thorough 90) with the decisive operand at every (third) level; calls of 1..50 (120) operands and nested calls of that depth",
		"reference interpreter: value, and the exact sequence of printed leaves", {}, explore });
}
