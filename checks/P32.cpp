// Tracing of calls and of the print functions.
#include "diff.h"
#include "gram.h"
static void explore(mc::W & w)
{
	// (print, trace, gettrace): all histories
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); }); };
	const std::vector<std::string> ops = { "(trace #t)", "(trace #f)", "(print \"a\")", "(println 1 x)", "(gettrace)", "(f 2)", "(list (gettrace) (gettrace))", "(trace (== x 5))", "(do (println (gettrace)))", "(g)", "(first (list))", "(trace 1)", "(evalstr \"(println \\\"e\\\")\")", "(println)", "(map print '(1 2))", "(def x 6)" };
	const std::string pre = "(def x 5) (defn f (a) (do (print \"f\" a) (return a))) (defn g () (do (trace #t) (println \"g\") (gettrace)))";
	for (int n = 1; n <= (w.thorough() ? 5 : 4); ++n)
	{
		mc::Odo o(n, n <= 3 ? 16 : n == 4 ? 11 : 9);
		do { std::vector<std::string> h = { pre }; for (int d : o.d) h.push_back(ops[d]); h.push_back("(gettrace)"); hist(h); if (n <= 3) { std::string b = "(defn z () (do"; for (int d : o.d) b += " " + ops[d]; hist({ pre, "(trace #t)", b + " (gettrace)))", "(list (z))", "(z)", "(gettrace)" }); } } while (o.next());
	}
	// tracing of calls: every evaluation traced or not, compared with the model and with the untraced run
	auto traced = [&](const std::vector<std::string> & h)
	{
		for (int m = 1; m < (1 << h.size()); ++m)
		{
			if (h.size() > 2 && m != (1 << h.size()) - 1 && m != 1 && m != 2 && m != 4) continue;
			w.item([&]() { return "tracing " + std::to_string(m) + ": " + diff::join(h, " ;; "); }, [&]() -> std::string
			{
				ref::Interp r; fx::Session s, plain;
				std::string calls;
				for (size_t i = 0; i < h.size(); ++i)
				{
					r.tracing = m >> i & 1;
					ref::Res e = r.eval(h[i]);
					w.steps(r.steps);
					if (e.kind == ref::Res::Unspec || e.kind == ref::Res::Diverge) { w.tag(e.why); return ""; }
					std::string want = r.takeOutput();
					fx::Out o = s.eval(h[i], "test", false, r.tracing), p = plain.eval(h[i]);
					std::string got = s.takeOutput(), quiet = plain.takeOutput();
					w.traces(2); w.state(want); w.outcome(o.brief() + got);
					if (got != want) return "expected output " + mc::q(want) + ", observed " + mc::q(got) + " in " + h[i];
					if (o.brief() != p.brief()) return "with tracing " + o.full() + ", without " + p.full() + " in " + h[i];
					// without the announcements the output is the one of the plain run
					if (r.tracing) { std::string rest; size_t b = 0; while (b < got.size()) { size_t e = got.find('\n', b); if (e == std::string::npos) e = got.size() - 1; std::string line = got.substr(b, e - b + 1); if (line.compare(0, 4, "--> ") != 0) { size_t k = line.find("--> "); rest += k == std::string::npos ? line : line.substr(0, k); } b = e + 1; } if (rest != quiet) return "without the announcements the output is " + mc::q(rest) + " instead of " + mc::q(quiet) + " in " + h[i]; }
					else if (got != quiet) return "output " + mc::q(got) + " of an evaluation that is not traced, expected " + mc::q(quiet) + " in " + h[i];
				}
				return "";
			});
		}
	};
	gram::G g;
	g.add('E', { "1", "x", "(+ $E $E)", "(list $E)", "(f $E)", "(do (println $E) $L)", "(if (== x 5) $E $E)", "(def x $E)", "(setf x $E)", "(and #t (f2 $E))", "(apply (fn (q) (list q)) (list $E))", "(m $E)", "'(f 1)", "(eval '$L)", "(return $E)", "(map f (list $E))", "(nosuch $E)", "(evalstr \"(f 1)\")", "(h $E)" });
	g.add('L', { "(nop)", "0:(list $E)", "(while (< x 7) (setf x (+ x 1)))", "(first $L)" });
	const std::string tp = "(def x 5) (defn f (a) (do (println \"f\") (return (list a)))) (defn f2 (a) (== a a)) (define-macro-eval m (a) (list a (f a))) (defn h (k) (do (def c (fn (z) (list z k))) (c 1)))";
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n) g.each('E', n, [&](const std::string & e) { std::string c = e[0] == '(' ? e : "(list " + e + ")"; traced({ tp, c, "(f x)" }); traced({ tp + " " + c }); });
	const std::vector<std::string> small = { "(def x 1)", "(f x)", "(setf x (+ x 1))", "(nosuch)", "(first (list))", "(m 2)", "(evalstr \"(f 1)\")", "(defn k () (evalstr \"(f 1)\"))", "(k)", "(return 1)", "(h 2)" };
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n) { mc::Odo o(n, 11); do { std::vector<std::string> h = { tp }; for (int d : o.d) h.push_back(small[d]); traced(h); } while (o.next()); }
	// the amount of what is traced, and of calls
	for (int n = 1; n <= (w.thorough() ? 400 : 120); ++n)
	{
		std::string N = std::to_string(n), big(n * 5, 'q');
		hist({ pre, "(trace #t)", "(do (def i 0) (while (< i " + N + ") (do (setf i (+ i 1)) (println \"<\" i))))", "(gettrace)", "(len (gettrace))", "(trace #f)", "(println 9)", "(gettrace)", "(print \"" + big + "\")", "(trace #t)", "(print \"" + big + "\")", "(gettrace)", "(print 1 2 \"" + big + "\" 3)", "(gettrace)" });
		std::string s = "(list 1)"; for (int i = 0; i < n % 40; ++i) s = i % 3 ? "(list " + s + ")" : "(f " + s + ")";
		if (n <= 40) traced({ "(def x 5) (defn f (a) (do (println \"f\") (return (list a))))", s, "(do (def i 0) (while (< i " + N + ") (do (setf i (+ i 1)) (f i))))" });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P32",
		"all histories of up to 3 (thorough 3) of 16 and of 4 (5) of 11 (9) trace and print operations, at top level and in a function; all programs up to size 3 (4) over 23 forms and all histories up to length 3 (4) of 11 evaluations, each evaluation traced or not; up to 120 (400) traced outputs and outputs of up to 600 (2000) characters; up to 40 traced calls",
		"reference interpreter: trace buffer, announcements of calls and results; traced and untraced runs of the implementation agree apart from the announcements", {}, explore });
}
