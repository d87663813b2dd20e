// Functions on lists: results, and that they leave their operands alone.
#include "diff.h"
#include "gram.h"
static void explore(mc::W & w)
{
	const std::string pre = "(def l (list 1 2 3)) (def m (list \"a\" (list 4 5) 's)) (def e (list)) (def k (list 9)) (defn inc (x) (+ x 1)) (defn two (x) (list x x)) (defn add (x a) (+ x a)) (defn col (x a) (cons x a)) ";
	auto one = [&](const std::string & t) { std::string p = "(def r " + t + ")"; w.item([&]() { return t; }, [&]() { return diff::history(w, { pre, p, "(list l m e k r)" }); }); };
	gram::G g;
	g.add('L', { "l", "m", "e", "k", "NIL", "'(7 8)", "(list $E)", "(list $E $E)", "(cons $E $L)", "(append $L $L)", "(append $L)", "(rest $L)", "(cdr $L)", "(reverse $L)", "(map two $L)", "(map inc $L)", "(map (fn (x) (list x)) $L)", "(reduce col $L $L)", "(append $L $L $L)", "(map first (list $L $L))", "(apply list $L)", "(map 'inc $L)", "(list)", "(+ $L $L)" });
	g.add('E', { "5", "\"ab\"", "x", "l", "(first $L)", "(last $L)", "(car $L)", "(nth 1 $L)", "(nth 0 $L)", "(nth 2 $L)", "(len $L)", "(reduce add $L 0)", "(search 2 $L)", "(search \"a\" $L)", "(first $E)", "(len $E)", "(apply + $L)", "(== $L $L)", "(cons $E $E)", "(nth $E $L)" });
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n) { g.each('L', n, one); g.each('E', n, one); }
	// every length and position
	for (int n = 0; n <= (w.thorough() ? 64 : 20); ++n)
	{
		std::string ls = "(list", s = "\"";
		for (int i = 0; i < n; ++i) { ls += " " + std::to_string(i * 3); s += (char)('a' + i % 26); }
		ls += ")"; s += "\"";
		for (auto & c : { ls, s, "'" + ls.substr(0, 1) + (n ? ls.substr(6) : ")") })
		{
			for (auto f : { "len", "first", "last", "rest", "car", "cdr", "reverse", "append", "str", "list" }) one(std::string("(") + f + " " + c + ")");
			one("(map (fn (x) (list x)) " + c + ")"); one("(reduce (fn (x a) (list x a)) " + c + " NIL)"); one("(cons 1 " + c + ")"); one("(append " + c + " " + c + ")"); one("(reverse (reverse " + c + "))"); one("(apply + " + c + ")");
			one("(do (def c " + c + ") (list (== c (append c)) (== c (cons (first c) (rest c))) (== (len c) (+ 1 (len (rest c))))))");
			for (int i = -2; i <= n + 1; ++i) { one("(nth " + std::to_string(i) + " " + c + ")"); one("(search " + std::to_string(i * 3) + " " + c + ")"); }
		}
	}
	// elements of every kind at every position
	const char * el[] = { "(nop)", "NIL", "(list)", "\"\"", "(make-dict)", "inc", "'s", "1.5", "#f", "0", "(list (nop))", "\"ab\"" };
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo o(n, 12);
		do
		{
			std::string c = "(list"; for (int d : o.d) c += std::string(" ") + el[d]; c += ")";
			for (auto f : { "(len $)", "(first $)", "(last $)", "(rest $)", "(car $)", "(cdr $)", "(reverse $)", "(append $ $)", "(cons 1 $)", "(cons $ $)", "(cons $ 2)", "(nth 0 $)", "(nth 1 $)", "(map typestr $)", "(map (fn (x) x) $)", "(map (fn (x) (list x)) $)", "(reduce (fn (x a) (cons x a)) $ NIL)", "(reduce (fn (x a) x) $ 5)", "(list (first $) (rest $))", "(map typestr (rest $))", "(map typestr (reverse $))", "(map typestr (append $ $))", "(map typestr (cons (first $) (rest $)))", "(apply list $)" })
			{
				std::string t; for (const char * q = f; *q; ++q) { if (*q == '$') t += c; else t += *q; }
				one(t);
			}
		} while (o.next());
	}
	// the same for lists out of the code of the program
	const char * qel[] = { "(1 2)", "()", "s", "\"ab\"", "1.5", "#t", "((1) 2)", "(quote s)", "NIL" };
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo o(n, n > 3 ? 7 : 9);
		do
		{
			std::string c = "'("; for (int d : o.d) c += std::string(" ") + qel[d]; c += ")";
			for (auto f : { "(len $)", "(first $)", "(last $)", "(rest $)", "(reverse $)", "(append $ $)", "(cons $ $)", "(cons (first $) (rest $))", "(nth 0 $)", "(map typestr $)", "(map (fn (x) x) $)", "(map (fn (x) (list x (typestr x))) $)", "(map len $)", "(map first $)", "(reduce (fn (x a) (cons x a)) $ NIL)", "(reduce (fn (x a) x) $ 5)", "(apply list $)", "(apply typestr $)", "(apply len $)", "(apply first $)", "(apply (fn (x) (list x (typestr x))) $)", "(apply (fn (x y) (list y x (typestr y) (len x))) $)", "(apply append $)", "(apply cons $)", "(apply == $)", "(apply + $)", "(search '(1 2) $)", "(search 's $)", "(search \"ab\" $)", "(do (def c $) (list (push 1 c) (pop c) c))" })
			{
				std::string t; for (const char * q = f; *q; ++q) { if (*q == '$') t += c; else t += *q; }
				one(t);
			}
		} while (o.next());
	}
	// functions whose value is undefined or empty for some elements: positions correspond
	for (auto f : { "(fn (x) (nop))", "(fn (x) NIL)", "(fn (x) (if (== x 2) (list)))", "(fn (x) (if (> x 1) x))", "(fn (x) (parse-integer (str x)))", "(fn (x) (parse-integer (first (list \"q\"))))", "(fn (x) (list))", "(fn (x) \"\")", "(fn (x) (first (list (nop))))", "(fn (x) (while #f (nop)))", "(fn (x) #f)", "nop", "print", "(fn (x) (setf y x))", "(fn (x) (def z x))", "(fn (x) (do))", "(fn (x) (if (== x 1) (return x) (nop)))" })
		for (auto c : { "(list)", "(list 1)", "(list 1 2 3)", "(list 2 2)", "(list 3 2 1)", "'(1 2 3 4 5)" })
		{
			std::string t = std::string("(map ") + f + " " + c + ")";
			diff::Opt o;
			w.item([&]() { return t; }, [&]() { return diff::history(w, { pre + "(def y 0)", "(def r " + t + ")", "(len r)", "(list (typestr r) (len (map " + std::string(f) + " " + c + ")))", "(do (def i 0) (while (< i (len r)) (do (println i (typestr (nth i r))) (setf i (+ i 1)))))", "(map typestr r)", "(len (append r r))", "(len (reverse r))", "(reduce (fn (x a) (+ a 1)) r 0)" }); });
		}
	// operands of the wrong kind
	const char * vals[] = { "1", "1.5", "\"\"", "\"ab\"", "#t", "NIL", "'s", "(list)", "(list 1 2)", "(nop)", "(make-dict)", "inc", "+" };
	for (auto f : { "len", "first", "last", "rest", "car", "cdr", "reverse", "append", "cons", "nth", "map", "reduce", "search", "list", "apply", "push", "pop" })
		for (auto a : vals) { one(std::string("(") + f + " " + a + ")"); for (auto b : vals) { one(std::string("(") + f + " " + a + " " + b + ")"); for (auto c : vals) if (w.thorough() || (c != vals[4] && c != vals[6])) one(std::string("(") + f + " " + a + " " + b + " " + c + ")"); } }
	// longer lists
	for (int n = 21; n <= (w.thorough() ? 400 : 150); n += w.thorough() || n < 40 ? 1 : 7)
	{
		std::string ls = "(list", s = "\""; for (int i = 0; i < n; ++i) { ls += " " + std::to_string(i * 3); s += (char)('a' + i % 26); } ls += ")"; s += "\"";
		for (auto & c : { ls, s, "'(" + ls.substr(6) })
		{
			for (auto f : { "len", "first", "last", "rest", "reverse", "append", "list" }) one(std::string("(") + f + " " + c + ")");
			one("(map (fn (x) (list x)) " + c + ")"); one("(reduce (fn (x a) (cons x a)) " + c + " NIL)"); one("(cons 1 " + c + ")"); one("(append " + c + " " + c + ")"); one("(apply list " + c + ")"); one("(reverse (reverse " + c + "))");
			one("(do (def c " + c + ") (list (nth " + std::to_string(n - 1) + " c) (nth " + std::to_string(n / 2) + " c) (search (nth " + std::to_string(n - 1) + " c) c) (== c (append c)) (== c (cons (first c) (rest c)))))");
		}
		std::string a = "(append", m = "(list"; for (int i = 0; i < n; ++i) { a += i % 3 ? " l" : " (list " + std::to_string(i) + ")"; m += " (list " + std::to_string(i) + ")"; } one(a + ")"); one("(apply append " + m + "))"); one("(map first " + m + "))");
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P10",
		"all terms up to size 3 (thorough 4) over 24 list forms and 20 element forms; lists, quoted lists and strings of every length 0..20 (64) with every index; lists of up to 3 (4) elements of 12 kinds in 24 expressions; quoted lists of up to 3 (4) elements of 9 kinds in 30 expressions; 17 mapped functions with undefined or empty values over 6 lists; 17 functions on all argument tuples up to arity 3 over 13 values; lists, strings and numbers of operands up to 150 (400)",
		"reference interpreter: the value, and that all lists in variables are unchanged", {}, explore });
}
