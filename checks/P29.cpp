// Values keep type and content on every way they are handed over.
#include "diff.h"
static void explore(mc::W & w)
{
	const char * vals[] = { "1", "0", "-7", "2147483647", "1.5", "0.0", "2.0", "-0.25", "#t", "#f", "\"s\"", "\"\"", "\"12\"", "\"#t\"", "\"a b\"", "'sym", "NIL", "(list)", "'(1 \"a\" 2.5)", "(list (list 1) (list))", "'(a (b))", "(make-dict)", "d", "(fn (x) (list x 1))", "f0", "''q", "'NIL", "(list NIL)", "`(1 ,(+ 1 1))", "(list f0 d)" };
	// every way gives the value itself; $ is replaced by the value
	const char * ways[] = {
		"(do (def v $) (def v2 v) (list v2))", "(list $)", "(do (def v $) (list v))", "(do (def v 0) (setf v $) (list v))", "(do (gdef gv $) (list gv))", "(do (def l (list 0)) (setf (first l) $) (first (list l)))", "(do (def l (list 0 1)) (setf (nth 1 l) $) (first (list l)))", "(do (def l (list 0)) (push $ l) (first (list l)))", "(do (def l (list 0 5)) (push $ l 1) (list (pop l 1) l))", "(list (pop (list $)))",
		"(list (first (list $)))", "(list (last (list 0 $)))", "(list (nth 1 (list 0 $ 2)))", "(rest (list 0 $))", "(cons $ '(1))", "(append (list $) (list $))", "(reverse (list 1 $))", "(list (id $))", "(list (id2 1 $))", "(do (def q9 (fn (x) (list x))) (q9 $))", "(apply list (list $ 1))", "(list (apply id (list $)))", "(map id (list $ $))", "(map (fn (x) (id x)) (list $))", "(list (reduce (fn (x acc) x) (list $) 0))", "(list (reduce (fn (x acc) acc) (list 1 2) $))",
		"(do (def dd (make-dict)) (dict-set dd 1 $) (list (dict-get dd 1)))", "(do (def dd (make-dict)) (dict-set dd \"k\" (list $)) (dict-get dd \"k\"))", "(do (def dd (make-dict)) (list (dict-set dd 1 $)))", "(do (def dd (make-dict)) (dict-set dd 1 $) (dict-set dd 2 $) (list (dict-get dd 2) (dict-contains-key dd 1)))",
		"(list (ret $))", "(list (ret2 $))", "(list (if #t $ 0))", "(list (if #f 0 $))", "(list (do (nop) (id $)))", "(list (eval '(id $)))", "(list (eval $))", "(do (def v $) (list (eval 'v)))", "(list (evalstr \"(id gl)\"))", "(list (m $))", "(list (mm $))", "(list (m (id $)))", "`(,$ ,(id $))", "`(1 (2 ,$))", "`(,@(list $ $))", "(do (defn g (a) (do (def b a) (fn () (id b)))) (def c (g $)) (list (c) (c)))", "(do (defn g (a b) (args)) (g $ $))", "(do (defn g (a) (list (arg 0) (arg 1))) (g 1 $))", "(do (defn g () (do (nop) (first (list _additionalArgs)))) (list (g 1)))", "(do (defn g (a) (list a)) (map g (list $ 1)))",
		"(do (def i 0) (def v 0) (while (< i 2) (do (setf v $) (setf i (+ i 1)))) (list v i))", "(list (while2 $))", "(do (def a $) (def b a) (def c b) (list a b c))", "(do (def a (list $)) (def b a) (list (first b) (== 1 (len b))))", "(list (car (cdr (list 0 $))))", "(list (rval $))", "(do (defn g (x) (setf x $)) (list (g 0)))", "(list (def zz $))", "(list (setf gs $))", "(list (cb id $))", "(list (cb (fn (x) (ret x)) $))", "(list (evalstr \"(do (def tl gl) (id tl))\"))", "(do (def o $) (defn h () (id o)) (list (h)))", "(do (def o $) (defn h () (do (def o2 o) (list o2 o))) (h))" };
	const std::string pre = "(def d (make-dict)) (dict-set d 1 (list 2)) (def gl 1) (def gs 0) (def v2 1) (def x2 2) (defn f0 (q) (list q)) (defn id (x) (do (return x))) (defn id2 (y x) (if #t (do (return x)) 0)) (defn ret (x) (do (return x) (list 0))) (defn ret2 (x) (do (if #t (do (while #t (do (return x)))) 1) (first (list 2)))) (defn cb (f x) (f x)) (defn while2 (x) (do (def i 0) (while (< i 1) (do (setf i 1) (return x))))) (define-macro-eval m (z) (id z)) (define-macro-eval mm (z) (ret (id z)))";
	auto subst = [](const std::string & t, const std::string & x) { std::string s; for (char c : t) { if (c == '$') s += x; else s += c; } return s; };
	for (auto v : vals) for (auto t : ways)
	{
		std::string e = subst(t, v);
		w.item([&]() { return e; }, [&]() -> std::string
		{
			std::vector<std::string> h = { pre, std::string("(def gl ") + v + ")", e, "(def r " + e + ")", "(list (typestr r) (type r) r)" };
			std::string bad = diff::history(w, h);
			if (bad.empty()) bad = diff::history(w, { pre, std::string("(def gl ") + v + ")", "(map typestr " + e + ")", "(map type " + e + ")", "(map (fn (x) (list (typestr x) x)) " + e + ")" });
			if (bad.empty()) bad = diff::history(w, { pre, std::string("(def gl ") + v + ")", "(do (def a " + e + ") (def b " + e + ") (list a b (map typestr a)))", "(println a b)" });
			return bad;
		});
	}
	// two ways after each other: the value handed over first $ then by the second way
	const char * w2[] = { "(id $)", "(first (list $))", "(nth 0 (list $ 1))", "(apply id (list $))", "(if #t $ 0)", "(do (def dd (make-dict)) (dict-set dd 1 $) (dict-get dd 1))", "(ret $)", "(eval '(id $))", "(m $)", "(first `(,$))", "(fn2 $)", "(pop (list $))", "(last (cons 0 (list $)))", "(reduce (fn (x acc) x) (list $) 0)", "(first (map id (list $)))", "(do (def t1 $) (id t1))", "(do (def l9 (list 0)) (setf (first l9) $) (first l9))", "(rval $)", "(cb id $)", "(while2 $)", "(first (rest (list 0 $)))", "(first (append (list $) '(1)))", "(first (reverse (list $)))" };
	for (auto v : vals) for (auto a : w2) for (auto b : w2)
	{
		if (!w.thorough() && (v == vals[1] || v == vals[3] || v == vals[6] || v == vals[9])) continue;
		std::string e = subst(b, subst(a, v));
		w.item([&]() { return e; }, [&]() { return diff::history(w, { pre + " (defn fn2 (x) x)", "(list (typestr " + e + ") " + e + ")", "(def r (list " + e + "))", "(map typestr r)" }); });
		if (w.thorough()) for (auto c : { "(id $)", "(first (list $))", "(m $)", "(ret $)", "(eval '(id $))", "(first `(,$))", "(if #t $ 0)", "(do (def t3 $) (id t3))" })
		{
			std::string e3 = subst(c, e);
			w.item([&]() { return e3; }, [&]() { return diff::history(w, { pre + " (defn fn2 (x) x)", "(list (typestr " + e3 + ") " + e3 + ")" }); });
		}
	}
	// handed over again and again in the same way
	for (auto v : vals) for (auto a : w2) for (int n = 3; n <= (w.thorough() ? 40 : 18); n += w.thorough() ? 1 : 5)
	{
		std::string e = v; for (int i = 0; i < n; ++i) { std::string t; for (const char * p = a; *p; ++p) { if (*p == '$') t += e; else t += *p; } e = t; if (e.size() > 6000) break; }
		w.item([&]() { return e; }, [&]() { return diff::history(w, { pre + " (defn fn2 (x) x)", "(list (typestr " + e + ") " + e + ")", "(def r (list " + e + "))", "(map typestr r)" }); });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P29",
		"30 values of every type handed over in 66 ways (definitions, assignments, arguments, results, elements, dictionary entries, closures, macros, quotes, evaluation of code); 26 (thorough 30) values handed over by all pairs of 23 ways (thorough also by 8 third ways); each value handed over up to 18 (40) times in the same way",
		"reference interpreter: value, type number, type name and printed form", {}, explore });
}
