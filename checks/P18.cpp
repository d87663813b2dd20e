// A failing evaluation leaves a session that works.
#include "diff.h"
#include <cstring>
static void explore(mc::W & w)
{
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); }); };
	const char * fail[] = { "(undefined-f 1)", "(first (list))", "(+ 1 (list 1))", "(/ 1 0)", "(nth 5 l)", "(setf nosuch 1)", "(setf (nth 9 l) 1)", "(f)", "(", ")", "(if 5 1)", "(not 1)", "(m)", "(arg 0)", "(evalstr \"(first NIL)\")", "(eval '(undefined-f))", "(map undefined-f l)", "(map (fn (x) (first x)) l)", "(reduce (fn (x a) (first x)) l 0)", "(apply f 5)", "(do 5)", "(format \"{1}\" 1)", "(dict-get l 1)", "(while (first (list)) (nop))", "(sym)", "\"\\q\"", "(me 1)", "(trace 5)", "(defn)", "(quote)" };
	const char * ctx[] = { "$", "(list 1 $ 2)", "(g (fn () $))", "(setf x $)", "(setf (first $) 1)", "(setf (nth $ l) 1)", "(setf (first l) $)", "(if #t $)", "(while (< x 3) (do (setf x (+ x 1)) $))", "(defn h (q) (do (def x 44) (print \"h\") $)) (h 5)", "(evalstr \"$\")", "(do (setf y 8) (push 4 l) $ (setf y 9))", "(map (fn (e) (do (push e l) $)) '(7 8))", "(m $)", "(println \"p\" $)", "(and #t $)", "`(1 ,$)", "(do (return 5) $)", "(evalstr (rval \"(do (def z 1) $)\"))", "(rval $)", "(apply f (list 1 $))", "(def nw $)", "(gdef nw $)", "(defn h2 (q) (do (def nw 3) (def nw $))) (h2 1)", "(def nw (list 6 $))", "(defn h2 () (gdef nw (do (push 4 l) $))) (h2)", "(def x $)", "(def (sym \"nw\") $)" };
	const char * probe[] = { "(list x y l)", "(do (print \"ok\") (f 1 2))", "(setf (first l) 77)", "(first l)", "(nth 0 l)", "(setf x (+ x 1))", "(m x)", "(need-l-value)", "(argscount)", "(evalstr \"(list x)\")", "(do (def i 0) (while (< i 3) (setf i (+ i 1))) (first (list i)))", "(g (fn () (list x)))", "(def nw (list 1))", "(me 5)", "(setf nw 1)", "(list nw)", "(print nw)" };
	const std::string pre = "(def x 1) (def y 2) (def l (list 3 4 5)) (defn f (a b) (if (== b NIL) (first (list)) (list a b))) (defn g (q) (do (def x 100) (list (q) x))) (define-macro-eval m (a) (list a a)) (define-macro-expand me (a) (list (first a)))";
	auto in = [](const char * c, const std::string & x) { std::string s; bool str = strchr(c, '"') && strstr(c, "evalstr"); for (; *c; ++c) { if (*c != '$') { s += *c; continue; } for (char k : x) { if (str && (k == '"' || k == '\\')) s += '\\'; s += k; } } return s; };
	for (auto f : fail) for (auto c : ctx)
	{
		std::string p = in(c, f);
		std::vector<std::string> h = { pre, p };
		for (auto q : probe) h.push_back(q);
		hist(h);
		hist({ pre, p, p, "(list x y l)", "(do (setf (nth 1 l) 6) (first (list l)))" });
		for (auto q : probe) { hist({ pre, p, q, "(list x y l)" }); if (w.thorough()) for (auto r : probe) hist({ pre, q, p, r, p, q, "(list x y l)" }); }
		// caught by SaveEval: never an exception, the message is printed
		w.item([&]() { return "SaveEval " + p; }, [&]() -> std::string
		{
			ref::Interp I; ref::Res r = I.eval(pre + " " + p);
			if (r.kind == ref::Res::Unspec || r.kind == ref::Res::Diverge) return "";
			fx::SaveOut o = fx::saveEval(pre + " " + p);
			w.traces(1); w.steps(I.steps);
			if (o.foreign) return "exception " + o.what + " escapes from SaveEval";
			if ((r.kind == ref::Res::Error) != o.isError) return std::string("expected ") + (r.kind == ref::Res::Error ? "an error value" : r.repr) + ", observed " + o.repr;
			if (!o.isError && ref::norm(o.repr) != ref::norm(r.repr)) return "expected " + r.repr + ", observed " + o.repr;
			if (o.isError && o.output.find("Error executing script") == std::string::npos) return "the error is not printed: " + o.output;
			if (!o.isError && o.output != I.out) return "expected output " + I.out + ", observed " + o.output;
			return "";
		});
	}
	// two failures in a row at different depths, then a probe: all pairs
	for (auto f1 : fail) for (auto f2 : fail) for (int k = 0; k < (w.thorough() ? 28 : 3); ++k)
		hist({ pre, in(ctx[(k * 9 + 9) % 28], f1), in(ctx[(k * 5 + 4) % 28], f2), "(list x y l)", "(setf (first l) 1)", "(f x y)", "(m y)" });
	// failure in the n-th step of a program: everything before it happened, nothing after it
	for (int n = 1; n <= 12; ++n) for (int k = 0; k < n; ++k) for (auto f : { "(first (list))", "(undefined-f)", "(+ 1 NIL)", "(setf nosuch 2)" })
	{
		std::string s; for (int i = 0; i < n; ++i) s += i == k ? std::string(f) + " " : "(print " + std::to_string(i) + ") (def v" + std::to_string(i) + " " + std::to_string(i) + ") ";
		hist({ "(def l (list))", s, "(defn q () (do " + s + "))", "(q)", "(list l)" });
	}
	// failures out of every depth of calls, and many failures in a row
	for (int n = 1; n <= (w.thorough() ? 80 : 30); ++n) for (auto f : { "(first (list))", "(undefined-f)", "(+ 1 NIL)", "(setf (nth 9 l) 2)", "(evalstr \"(\")" }) for (int kind = 0; kind < 6; ++kind)
	{
		std::vector<std::string> h = { pre };
		for (int i = n; i >= 1; --i)
		{
			std::string nx = i == n ? f : "(k" + std::to_string(i + 1) + " (+ a 1))";
			h.push_back("(defn k" + std::to_string(i) + " (a) " + (kind == 0 ? "(list a " + nx + ")" : kind == 1 ? "(do (def x a) (setf y a) " + nx + " (setf y 0))" : kind == 2 ? "(map (fn (x) " + nx + ") '(1 2))" : kind == 3 ? "(do (while (< a 90) (do (push a l) " + nx + " (setf a 99))))" : kind == 4 ? "(eval '(do (setf x (+ x 1)) " + nx + "))" : "(setf (first l) " + nx + ")") + ")");
		}
		h.push_back("(k1 10)"); h.push_back("(list x y l)"); for (auto q : probe) h.push_back(q); h.push_back("(k1 20)"); h.push_back("(list x y l)");
		hist(h);
		std::vector<std::string> r = { pre };
		for (int i = 0; i < n; ++i) r.push_back(kind == 0 ? f : in(ctx[(kind * 5 + i * (kind + 1)) % 28], f));
		for (auto q : probe) r.push_back(q);
		hist(r);
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P18",
		"30 failing programs x 28 places of a program, each followed by all of 17 probes together and each alone (thorough: all probe, failure, probe, failure, probe histories); all pairs of failures in 3 (28) pairs of places; failure at every step of programs of 1..12 steps; the same through SaveEval; failures out of 1..30 (80) nested calls in 6 ways, and 1..30 (80) failures in a row, followed by all probes",
		"reference interpreter: every evaluation after the failure has the value, output and globals that the effects before the failure imply", {}, explore });
}
