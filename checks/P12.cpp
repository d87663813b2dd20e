// Histories of operations on dictionaries.
#include "diff.h"
static void explore(mc::W & w)
{
	auto hist = [&](const std::vector<std::string> & h) { w.item([&]() { return diff::join(h, " ;; "); }, [&]() { return diff::history(w, h); }); };
	const std::string pre = "(def d (make-dict)) (def e (make-dict)) (def l (list 1))";
	std::vector<std::string> ops = { "(dict-set d \"k\" 1)", "(dict-set d \"k\" \"x\")", "(dict-set d 1 2)", "(dict-set d 1.0 3)", "(dict-set d \"1\" 4)", "(dict-set d 'k 5)", "(dict-set d NIL 6)", "(dict-set d #t 7)", "(dict-set d l 8)", "(dict-remove d \"k\")", "(dict-remove d 1)", "(dict-remove d l)", "(dict-clear d)", "(def e d)", "(dict-set e \"k\" d)", "(def e (make-dict))", "(dict-set d \"k\" (+ 1 (len d)))", "(push 5 l)" };
	const std::string probe = "(list (len d) (len e) (dict-get d \"k\") (dict-get d 1) (dict-get d 1.0) (dict-get d \"1\") (dict-get d 'k) (dict-get d NIL) (dict-get d #t) (dict-get d l) (dict-contains-key d \"k\") (dict-contains-key d 1) (dict-contains-key d #f) (dict-contains-value d 1) (dict-contains-value d \"x\") (dict-contains-value d 2) (len (dict-keys d)))";
	int no = (int)ops.size();
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo o(n, no);
		do
		{
			std::vector<std::string> v = { pre };
			for (int i : o.d) v.push_back(ops[i]);
			v.push_back(probe); v.push_back("(list (len e) (len (dict-get e \"k\")))");
			hist(v);
		} while (o.next());
	}
	// all pairs of keys: when are they the same key?
	const char * keys[] = { "0", "1", "-1", "2147483647", "0.0", "1.0", "1.5", "-0.0", "\"\"", "\"a\"", "\"A\"", "\"1\"", "\"ab\"", "\"a \"", "#t", "#f", "NIL", "'a", "'b", "(nop)", "l", "m", "(list 1)", "(make-dict)", "d", "f", "+", "(fn () 1)", "\"abcdefghijklmnopqrst\"", "\"abcdefghijklmnopqrsu\"",
		"16777216", "16777217", "2147483646", "-2147483648", "-2147483647", "1e10", "10000000001.0", "0.1", "0.10000001", "0.1000001", "1e-9", "0.5", "16777216.0", "16777217.0", "(+ \"a\" \"b\")", "(str 1)", "\"a\\n\"", "\"\\n\"", "(list)", "'()", "(eval 'NIL)", "(* 1.0 1)", "#f", "(== 1 1)", "(quote +)" };
	for (auto a : keys) for (auto b : keys)
	{
		std::string A = a, B = b;
		if (A == "d" || B == "d") continue;
		hist({ "(def d (make-dict)) (def l (list 1)) (def m (list 1)) (defn f () 1)", "(dict-set d " + A + " 10)", "(dict-contains-key d " + B + ")", "(dict-set d " + B + " 20)", "(list (len d) (dict-get d " + A + ") (dict-get d " + B + "))", "(dict-remove d " + A + ")", "(list (len d) (dict-contains-key d " + A + ") (dict-contains-key d " + B + ") (dict-contains-value d 20))" });
	}
	// texts as keys: every byte alone, behind and before the same letters, every length
	auto two = [&](const std::string & A, const std::string & B)
	{
		hist({ "(def d (make-dict))", "(dict-set d \"" + A + "\" 10)", "(dict-contains-key d \"" + B + "\")", "(dict-set d \"" + B + "\" 20)", "(list (len d) (dict-get d \"" + A + "\") (dict-get d \"" + B + "\"))", "(dict-keys d)", "(dict-remove d \"" + A + "\")", "(list (len d) (dict-get d \"" + B + "\"))" });
	};
	for (int c = 0; c < 256; ++c)
	{
		if (c == '"' || c == '\\') continue;
		std::string x(1, (char)c);
		two("a" + x, "a"); two("a" + x + "b", "a" + x + "c"); two(x + "a", x + "b"); two(x, "m"); two("a" + x + "b", "ab"); two(x + x, x);
		hist({ "(def d (make-dict))", "(do" + [&]() { std::string s; for (int e = 0; e < 256; e += 5) if (e != '"' && e != '\\') s += " (dict-set d \"" + std::string(1, (char)e) + x + "\" " + std::to_string(e) + ")"; return s; }() + ")", "(dict-keys d)", "(str d)" });
	}
	for (int n = 0; n <= (w.thorough() ? 1200 : 300); ++n) { std::string s(n, 'k'); two(s, s + "k"); two(s + "a", s + "b"); two("a" + s, "b" + s); }
	// values of every kind come back unchanged
	const char * vals[] = { "1", "1.5", "\"s\"", "#f", "NIL", "'q", "l", "(list 1 (list 2))", "(nop)", "f", "d2", "'(a b)" };
	for (auto v : vals) for (auto u : vals) hist({ "(def d (make-dict)) (def d2 (make-dict)) (def l (list 1)) (defn f () 1)", "(dict-set d \"a\" " + std::string(v) + ")", "(dict-set d \"b\" " + std::string(u) + ")", "(dict-set d \"a\" (list (dict-get d \"a\") (dict-get d \"b\")))", "(list (dict-get d \"a\") (typestr (dict-get d \"b\")) (len d))", "(def r (dict-get d \"b\"))", "(dict-contains-value d \"s\")" });
	// many keys, inserted in different orders, removed one by one
	for (int n = 1; n <= (w.thorough() ? 128 : 40); ++n) for (int step : { 1, 7, 13 })
	{
		std::vector<std::string> h = { "(def d (make-dict))" };
		std::string ins = "(do", rem = "(do", get = "(list";
		for (int i = 0; i < n; ++i) { int k = (i * step) % n; std::string key = i % 2 ? "\"k" + std::to_string(k) + "\"" : std::to_string(k); ins += " (dict-set d " + key + " " + std::to_string(i) + ")"; get += " (dict-get d " + key + ")"; if (i % 3 == 0) rem += " (dict-remove d " + key + ")"; }
		std::string has = "(list"; for (int i = -1; i <= n; ++i) has += " (dict-contains-value d " + std::to_string(i) + ") (dict-contains-key d " + std::to_string(i) + ") (dict-contains-key d \"k" + std::to_string(i) + "\")";
		h.push_back(ins + " (len d))"); h.push_back(has + ")"); h.push_back(get + ")"); h.push_back("(dict-keys d)"); h.push_back("(str d)"); h.push_back(rem + " (len d))"); h.push_back(get + ")"); h.push_back("(len (dict-keys d))");
		hist(h);
	}
	// operands of the wrong kind
	const char * any[] = { "d", "1", "\"a\"", "NIL", "(list)", "(nop)", "'s", "f" };
	for (auto fn : { "make-dict", "dict-set", "dict-get", "dict-remove", "dict-keys", "dict-clear", "dict-contains-key", "dict-contains-value", "len", "str", "typestr" })
		for (int n = 0; n <= 4; ++n)
		{
			mc::Odo o(n, n == 4 ? 3 : 8);
			do { std::string s = std::string("(") + fn; for (int i : o.d) s += std::string(" ") + any[i]; if (n >= 3 && s.find("d ", 9) != std::string::npos && s.substr(s.size() - 2) == " d") continue; hist({ "(def d (make-dict)) (defn f () 1)", s + ")", "(len d)" }); } while (o.next());
		}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P12",
		"all histories up to length 3 (thorough 4) of 18 operations on two dictionaries and their aliases, with 17 queries at the end; all pairs of 55 keys (large, close and computed numbers); texts with every byte at 6 kinds of position and of every length up to 300 (1200) as keys; all pairs of 12 values; 1..40 (128) keys in 3 insertion orders with removals; 11 functions on all argument tuples",
		"reference interpreter (its own ordered map): value of every step, all variables after every step",
		{ "dict-contains-value of lists and dictionaries that hold themselves are not judged" }, explore });
}
