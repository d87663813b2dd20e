// Quote and quasiquote.
#include "diff.h"
#include "gram.h"
static void explore(mc::W & w)
{
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); }); };
	const std::string pre = "(def x 5) (def y \"s\") (def l (list 1 2 3)) (def n (list)) (def k (list (list 1) 'b)) (defn f (a) (list a a))";
	gram::G g;
	g.add('T', { "a", "x", "1", "\"q\"", ",x", ",l", ",@l", ",@n", ",@k", ",(+ x 1)", ",(f x)", ",@(f y)", ",@(list x $Q)", ",$Q", "($T)", "($T $T)", "($T $T $T)", "'$T", "(_unquote $T)", "(_unquote)", "(_unquote $T $T)", "(_unquotesplicing l x)", "(_unquotesplicing $T)", "(quasiquote $T)", "(unquote $T)", "NIL", "()", ",@x", ",'z", ",@'(u v)" });
	g.add('Q', { "`($T)", "`($T $T)", "(list 1 x)", "'(r)" });
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n) g.each('T', n, [&](const std::string & t)
	{
		hist({ pre, "`" + t, "(def r `(" + t + " end))", "(list (typestr r) (len r) l n k)", "(setf l (list 9))", "(list r)" });
		hist({ pre, "'(" + t + ")", "(quasiquote (0 " + t + "))", "(list l)" });
	});
	// the same text through quote, evaluated
	gram::G e;
	e.add('E', { "1", "x", "y", "l", "(+ $E $E)", "(list $E $E)", "(f $E)", "(first $E)", "(if (== x 5) $E $E)", "'$E", "`(1 ,$E)", "`(,@$E 2)", "(quote $E)", "(quasiquote ($E))", "(len $E)" });
	for (int n = 1; n <= (w.thorough() ? 5 : 4); ++n) e.each('E', n, [&](const std::string & t) { hist({ pre, "(list " + t + ")", "(eval '(list " + t + "))", "(eval `(list " + t + "))", "(list '" + t + " `" + t + ")", "(list x y l)" }); });
	// splices of every length at every place
	for (int n = 0; n <= 12; ++n) for (int k = 0; k <= 4; ++k)
	{
		std::string ls = "(def l (list"; for (int i = 0; i < n; ++i) ls += " " + std::to_string(i); ls += "))";
		std::string t = "`("; for (int i = 0; i < 5; ++i) t += i == k ? " ,@l" : i % 2 ? " ,(len l)" : " s"; t += ")";
		std::string c = "(list", f = "(f"; for (int i = 0; i < 9; ++i) { c += i == 2 * k ? " ,@l" : " " + std::to_string(i * 10); f += i == k ? " ,@l" : i == 8 - k ? " ,@l" : " x"; }
		hist({ "(def x 5) (defn f (a b) (args))", ls, c + ")", f + ")", c + " (list 1 ,@l) ,l)" });
		std::string q = c, r = f; for (auto * z : { &q, &r }) for (size_t i = 0; (i = z->find(" ,@l", i)) != std::string::npos; i += 5) z->insert(i + 1, "`");
		hist({ "(def x 5) (defn f (a b) (args)) (defn g (a b) (list `,@(args) a))", ls, q + ")", r + ")", q + " (list 1 `,@l) `,l)", "(g 1" + r.substr(2) + ")" });
		hist({ ls, t, "`((" + t.substr(2) + " ,@l ,@l)", "(list ,@l)", "(+ ,@l)", "(len `(,@l))", "(list l)" });
	}
	// lists made by quasiquote do not share with their sources; lists made by quote are what was written
	for (auto m : { "(push 0 r)", "(setf (first r) 0)", "(setf (nth 1 r) 0)", "(pop r)", "(push 7 (nth 1 r))" }) for (auto t : { "`(,l ,@l)", "`(1 ,l)", "`(,@l)", "`(,@l ,@l)", "'(1 (2) 3)", "`(1 (2) ,x)", "(list l l)" })
		hist({ pre, "(defn mk () " + std::string(t) + ")", "(def r (mk))", m, "(list r l)", "(def r2 (mk))", "(list r r2 l)" });
	// long splices, wide and deep templates, long runs of quotes
	for (int n = 1; n <= (w.thorough() ? 200 : 60); ++n)
	{
		std::string ls = "(def l (list"; for (int i = 0; i < n; ++i) ls += " " + std::to_string(i); ls += "))";
		std::string deep = ",x", dq = "(a ,@l)", dl = "l";
		for (int i = 0; i < n; ++i) { deep = i % 2 ? "(" + deep + " " + std::to_string(i) + ")" : "(s " + deep + ")"; dq = i % 2 ? "(" + dq + ")" : "(q " + dq + " ,x)"; }
		hist({ "(def x 5)" + ls, "(len `(,@l ,@l x ,x))", "`(0 ,@l end)", "`" + deep, "(def r `" + dq + ")", "(list r)", "(list l x)" });
		for (int k = 0; k < n; k += n > 20 && !w.thorough() ? 7 : 1)
		{
			std::string t = "`(", u = "`("; for (int i = 0; i < n; ++i) { t += i == k ? " ,x" : " e" + std::to_string(i); u += i == k ? " e" : i % 2 ? " ,(+ x " + std::to_string(i) + ")" : " ,x"; }
			hist({ "(def x 5)", t + ")", u + ")", "'" + t.substr(1) + ")" });
		}
		if (n <= 40) { std::string q(n, '\''), b(n, '`'); hist({ "(def x 5)", "(list " + q + "x)", "(list " + q + "(x 1))", "(len " + q + "(x 1 2 3))", "(eval " + q + "(list x 1))" }); }
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P16",
		"all templates up to size 3 (thorough 4) over 30 forms (nested lists, quotes, unquotes and splices), quoted and quasiquoted; all expressions up to size 4 (5) over 15 forms evaluated directly, through quote and through quasiquote; splices of every length 0..12 at every place; 5 mutations of 7 results; splices of up to 60 (200) elements, templates of that width and depth with the unquoted part at every (seventh) place, runs of 1..40 quotes",
		"reference interpreter", {}, explore });
}
