// Sessions do not influence each other.
#include "diff.h"
static void explore(mc::W & w)
{
	const std::vector<std::string> ops = { "(def x 1)", "(gdefn f (a) (list a x))", "(define-macro-eval m (p) (list p p x))", "(define-macro-expand me (p) (list '+ p 1))", "(list x (f 2))", "(m (do (print \"m\") (first (list 3))))", "(me 4)", "(push 5 x)", "(def x (list 1 2))", "(setf + -)", "(+ 7 2)", "(trace #t)", "(do (print \"out\") (return 3))", "(first (list))", "(def d (make-dict))", "(dict-set d 1 x)", "(list d)", "(delvar 'x)", "(setf (first x) 9)", "(gdef len (fn (q) 77))", "(len '(1 2))", "(readline)", "(gettrace)", "(evalstr \"(def y (quote (1 2)))\")", "(push 3 y)", "(", "(import \"nosuchmodule\")", "(defn + (a b) 5)" };
	int n = (int)ops.size();
	auto run = [&](const std::vector<int> & a, const std::vector<int> & b, unsigned order, bool save)
	{
		w.item([&]() { std::string s; size_t i = 0, j = 0; for (size_t k = 0; k < a.size() + b.size(); ++k) s += (order >> k & 1) ? "B:" + ops[b[j++]] + " ;; " : "A:" + ops[a[i++]] + " ;; "; return s + (save ? "save" : ""); }, [&]() -> std::string
		{
			diff::Pair A, B; diff::Opt o; bool ja = true, jb = true, j;
			A.s.setInput("a1\na2"); A.m.input = "a1\na2"; B.s.setInput("b1\nb2"); B.m.input = "b1\nb2";
			size_t x = 0, y = 0;
			for (size_t k = 0; k < a.size() + b.size(); ++k)
			{
				bool second = order >> k & 1;
				const std::string & c = second ? ops[b[y++]] : ops[a[x++]];
				if (save) fx::saveEval("(def x 500) (gdefn f (a) 501) (define-macro-eval m (p) 502) (setf + *) (trace #t) " + c, "other");
				if (!(second ? jb : ja)) continue;
				std::string bad = (second ? B : A).step(w, c, o, j);
				if (!bad.empty()) return std::string(second ? "B: " : "A: ") + bad;
				(second ? jb : ja) = j;
				w.state(A.m.stateKey() + "|" + B.m.stateKey() + "|" + A.last.brief() + B.last.brief());
			}
			return "";
		});
	};
	// all pairs of histories and all their interleavings
	auto all = [&](int la, int lb, const std::vector<int> & pool)
	{
		std::vector<unsigned> orders;
		for (unsigned m = 0; m < 1u << (la + lb); ++m) if (__builtin_popcount(m) == lb) orders.push_back(m);
		int p = (int)pool.size();
		mc::Odo a(la, p);
		do { mc::Odo b(lb, p); do { std::vector<int> x, y; for (int d : a.d) x.push_back(pool[d]); for (int d : b.d) y.push_back(pool[d]); for (unsigned m : orders) run(x, y, m, false); } while (b.next()); } while (a.next());
	};
	std::vector<int> every; for (int i = 0; i < n; ++i) every.push_back(i);
	all(1, 1, every);
	if (w.thorough()) { all(2, 2, every); all(3, 2, { 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 14, 15 }); all(3, 3, { 0, 1, 2, 4, 5, 9, 10 }); }
	else { all(2, 1, every); all(1, 2, every); all(2, 2, { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16 }); }
	// the same with whole evaluations of an independent program in between
	mc::Odo o(w.thorough() ? 3 : 2, n);
	do { std::vector<int> a(o.d.begin(), o.d.end()); run(a, {}, 0, true); } while (o.next());
	// any number of sessions, used in turns and in any order
	for (int n = 2; n <= (w.thorough() ? 40 : 16); ++n) for (int order = 0; order < 3; ++order) for (int kind = 0; kind < 4; ++kind)
		w.item([&]() { return std::to_string(n) + " sessions, order " + std::to_string(order) + ", kind " + std::to_string(kind); }, [&]() -> std::string
		{
			std::vector<std::unique_ptr<diff::Pair>> S; diff::Opt o; bool j;
			for (int i = 0; i < n; ++i) S.emplace_back(new diff::Pair);
			const char * steps[4][6] = {
				{ "(def x N)", "(defn f (a) (list a x N))", "(f N)", "(setf x (+ x N))", "(list x (f 1))", "(list x)" },
				{ "(define-macro-eval m (a) (list a N))", "(define-macro-expand e (a) (list '+ 'a N))", "(m 1)", "(list (m 2) (e 3))", "(defn m2 (q) (m q))", "(m2 N)" },
				{ "(def l (list N))", "(push N l)", "(trace #t)", "(println l N)", "(gettrace)", "(list l)" },
				{ "(def d (make-dict))", "(dict-set d N \"v\")", "(first (list))", "(do (def y N) (return (list d y)))", "(gdef len (fn (q) N))", "(list d (len '(1 2)))" } };
			for (int t = 0; t < 6; ++t) for (int i = 0; i < n; ++i)
			{
				int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + t) % n;
				if (order == 2 && n % 7 == 0) k = (i + t) % n;
				std::string c; for (const char * p = steps[kind][t]; *p; ++p) { if (*p == 'N') c += std::to_string(k * 10 + 1); else c += *p; }
				std::string bad = S[k]->step(w, c, o, j);
				if (!bad.empty()) return "session " + std::to_string(k) + ": " + bad;
				// sessions that end do not take anything along
				if (order == 1 && t == 3 && i % 3 == 2) { S[k].reset(new diff::Pair); for (int q = 0; q <= t; ++q) { std::string e; for (const char * p = steps[kind][q]; *p; ++p) { if (*p == 'N') e += std::to_string(k * 10 + 1); else e += *p; } bad = S[k]->step(w, e, o, j); if (!bad.empty()) return "new session: " + bad; } }
			}
			return "";
		});
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P20",
		"two sessions: all interleavings of all pairs of histories up to lengths (2,1), (1,2) over 28 operations and (2,2) over 14 (thorough (2,2) over 28, (3,2) over 12, (3,3) over 7); all histories up to length 2 (3) of one session with independent programs evaluated between its steps; 2..16 (40) sessions used in turns in 3 orders",
		"one reference interpreter per session: value, output, input and globals of each session are those of its own history", {}, explore });
}
