// Strings.
#include "diff.h"
static void explore(mc::W & w)
{
	auto one = [&](const std::string & p) { w.item([&]() { return p; }, [&]() { return diff::program(w, p); }); };
	auto lit = [](const std::string & s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else r += c; } return r + "\""; };
	std::vector<std::string> all, few;
	const std::string abc = "abB \n";
	for (int n = 0; n <= (w.thorough() ? 5 : 4); ++n) { mc::Odo o(n, (int)abc.size()); do { std::string s; for (int d : o.d) s += abc[d]; all.push_back(s); } while (o.next()); }
	for (int n = 0; n <= 2; ++n) { mc::Odo o(n, 4); do { std::string s; for (int d : o.d) s += "abB "[d]; few.push_back(s); } while (o.next()); }
	for (auto & s : all)
	{
		std::string L = lit(s);
		for (auto f : { "len", "first", "last", "rest", "car", "cdr", "reverse", "trim", "upper-case", "lower-case", "str", "sym", "typestr", "parse-integer", "format", "int", "evalstr" }) { if (std::string(f) == "evalstr" && s.size() > 2) continue; one(std::string("(") + f + " " + L + ")"); }
		one("(list (+ " + L + " " + L + ") (string " + L + " 1) (== " + L + " (reverse (reverse " + L + "))) (len (+ " + L + " \"x\")))");
		for (int i = -1; i <= (int)s.size() + 1; ++i)
		{
			one("(nth " + std::to_string(i) + " " + L + ")");
			if (s.size() <= 3) for (int k = -1; k <= (int)s.size() + 1; ++k) one("(slice " + L + " " + std::to_string(i) + " " + std::to_string(k) + ")");
		}
	}
	// search and replace: all pairs
	for (auto & s : all)
	{
		if (s.size() > (w.thorough() ? 5u : 4u) || s.find('\n') != std::string::npos) continue;
		for (auto & t : few)
		{
			one("(search " + lit(t) + " " + lit(s) + ")");
			for (auto & u : { std::string(""), std::string("a"), std::string("ab"), std::string("xx") }) if (!t.empty() && (w.thorough() || u != "ab")) one("(replace " + lit(s) + " " + lit(t) + " " + lit(u) + ")");
			if (s.size() <= 3) for (int i = -1; i <= 4; ++i) { one("(search " + lit(t) + " " + lit(s) + " " + std::to_string(i) + ")"); for (int k = -1; k <= 4; ++k) one("(search " + lit(t) + " " + lit(s) + " " + std::to_string(i) + " " + std::to_string(k) + ")"); }
		}
	}
	// concatenation of every kind of value
	const char * vals[] = { "\"a\"", "\"\"", "1", "-5", "1.5", "0.1", "1e10", "#t", "#f", "'s", "(+ 1 2)", "2147483647", "\"q\\\"q\"", "\" \"", "NIL", "(list 1)" };
	for (auto a : vals) for (auto b : vals) { one(std::string("(+ ") + a + " " + b + ")"); one(std::string("(string ") + a + " " + b + ")"); for (auto c : vals) { one(std::string("(+ ") + a + " " + b + " " + c + ")"); one(std::string("(+ \"x\" ") + a + " " + b + " " + c + ")"); } }
	// escapes: every sequence of escaped and plain characters
	const char * esc[] = { "\\n", "\\t", "\\r", "\\\\", "\\\"", "a", " ", ";", "(", ")", "'", "\n", "{0}", "," };
	for (int n = 0; n <= (w.thorough() ? 5 : 4); ++n) { mc::Odo o(n, n >= 5 ? 8 : 14); do { std::string s; for (int d : o.d) s += esc[d]; one("(do (def s \"" + s + "\") (println s) (list s (len s)))"); } while (o.next()); }
	// every byte, every length
	for (int c = 0; c < 256; ++c)
	{
		if (c == '"' || c == '\\') continue;
		std::string s = std::string("x") + (char)c + "Y";
		one("(do (print \"" + s + "\") (list (len \"" + s + "\") (nth 1 \"" + s + "\") (reverse \"" + s + "\")))");
		if (c < 128) one("(list (upper-case \"" + s + "\") (lower-case \"" + s + "\") (trim \"" + std::string(1, (char)c) + "a" + std::string(1, (char)c) + "\"))");
	}
	for (int n = 0; n <= (w.thorough() ? 400 : 120); ++n)
	{
		std::string s; for (int i = 0; i < n; ++i) s += (char)('a' + (i * 7) % 26);
		for (auto f : { "len", "reverse", "upper-case", "rest", "trim" }) one(std::string("(") + f + " \"" + s + "\")");
		one("(replace \"" + s + "\" \"h\" \"HH\")"); one("(search \"z\" \"" + s + "z\")"); one("(slice \"" + s + "\" " + std::to_string(n / 2) + " " + std::to_string(n / 3) + ")"); one("(trim \"" + std::string(n, ' ') + "x" + std::string(n, ' ') + "\")"); one("(nth " + std::to_string(n) + " \"" + s + "\")");
	}
	// strings with zero bytes and bytes above 127
	std::vector<std::string> zs; const char zc[] = { 0, 'a', 'b', (char)0xC3 };
	for (int n = 0; n <= 3; ++n) { mc::Odo o(n, n == 3 && !w.thorough() ? 3 : 4); do { std::string s; for (int d : o.d) s += zc[d]; zs.push_back(s); } while (o.next()); }
	for (auto & s : zs)
	{
		std::string L = lit(s);
		for (auto f : { "len", "first", "last", "rest", "reverse", "trim", "upper-case", "str", "typestr", "print", "list", "format" }) { if (std::string(f) == "upper-case" && s.find((char)0xC3) != std::string::npos) continue; one(std::string("(") + f + " " + L + ")"); }
		for (auto & t : zs)
		{
			std::string M = lit(t);
			one("(list (+ " + L + " " + M + ") (== " + L + " " + M + ") (!= " + L + " " + M + "))");
			one("(list (< " + L + " " + M + ") (<= " + L + " " + M + ") (> " + L + " " + M + ") (>= " + L + " " + M + "))");
			one("(search " + L + " " + M + ")");
			if (!t.empty() && t.size() < 3) for (auto & u : { std::string("x"), std::string(1, '\0'), std::string("y\0z", 3) }) one("(replace " + L + " " + M + " " + lit(u) + ")");
			one("(format \"[{0}|{1}]\" " + L + " " + M + ")");
			one("(do (def d (make-dict)) (dict-set d " + L + " 1) (dict-set d " + M + " 2) (list (dict-get d " + L + ") (dict-get d " + M + ")))");
		}
	}
	// operands of other kinds
	const char * any[] = { "1", "1.5", "\"ab\"", "#t", "NIL", "'sym", "(list)", "(list \"a\" 1)", "(nop)" };
	for (auto f : { "search", "slice", "replace", "trim", "upper-case", "lower-case", "str", "sym", "string" }) for (int n = 0; n <= 4; ++n) { mc::Odo o(n, n == 4 ? 4 : 9); do { std::string s = std::string("(") + f; for (int d : o.d) s += std::string(" ") + any[d]; one(s + ")"); } while (o.next()); }
	// search and replace in longer strings: every part of them
	for (int n = 1; n <= (w.thorough() ? 64 : 30); ++n)
	{
		std::string s; for (int i = 0; i < n; ++i) s += "abcab"[(i * i + i / 3) % 5];
		for (int p = 0; p < n; ++p) for (int k = 1; p + k <= n; ++k)
		{
			if (k > 4 && !w.thorough() && k % 5 && p + k != n) continue;
			std::string t = s.substr(p, k);
			one("(list (search \"" + t + "\" \"" + s + "\") (replace \"" + s + "\" \"" + t + "\" \"<>\") (slice \"" + s + "\" " + std::to_string(p) + " " + std::to_string(k) + ") (search \"" + t + "x\" \"" + s + "\"))");
		}
	}
	for (int n = 0; n <= (w.thorough() ? 80 : 40); ++n) for (int k = 0; k <= 8; ++k)
	{
		std::string a, b; for (int i = 0; i < n; ++i) { a += "ab"; b += "a"; }
		std::string r = std::string("abaabbab").substr(0, k);
		one("(list (replace \"" + a + "\" \"ab\" \"" + r + "\") (replace \"" + b + "\" \"a\" \"" + r + "\") (replace \"" + b + "\" \"aa\" \"" + r + "\") (replace \"" + b + "b\" \"aab\" \"" + r + "\"))");
		one("(do (def s \"\") (def i 0) (while (< i " + std::to_string(n) + ") (do (setf i (+ i 1)) (setf s (+ s \"" + r + "\" i)))) (list s (len s)))");
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P13",
		"strings with zero bytes and bytes above 127 in all pairs and 8 operations; all strings over 5 characters up to length 4 (thorough 5) x 17 functions, every index and slice; search and replace on all pairs with strings up to length 2, all positions and lengths; concatenations of 16 values up to three; all sequences of up to 4 (5) of 14 escapes and characters; every byte; every length 0..120 (400); 9 functions on all argument tuples over 9 values; search, replace and slice with every part of strings of length 1..30 (64); replacements of up to 40 (80) occurrences",
		"reference interpreter: value, length and printed form",
		{ "replace of the empty string, negative positions of search and the text of containers in concatenations are not judged" }, explore });
}
