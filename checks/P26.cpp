// Numbers: literals, text, parsing and conversions.
#include "diff.h"
static void explore(mc::W & w)
{
	auto one = [&](const std::string & p) { w.item([&]() { return p; }, [&]() { return diff::program(w, p); }); };
	auto lit = [](const std::string & s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; };
	// integers: literal, text and parsing give back the number
	auto integer = [&](long long v)
	{
		if (v > 2147483647LL || v < -2147483648LL) return;
		std::string n = std::to_string(v);
		w.item([&]() { return "integer " + n; }, [&]() -> std::string
		{
			fx::Session s;
			fx::Out o = s.eval("(list " + n + " (str " + n + ") (parse-integer \"" + n + "\") (int \"" + n + "\") (int " + n + ") (typestr " + n + ") (== " + n + " (int (float " + n + "))) (int (float \"" + n + "\")))");
			std::string want = "(" + n + " \"" + n + "\" " + n + " " + n + " " + n + " \"Int\" #t " + n + ")";
			w.traces(1); w.steps(1); w.state(n); w.outcome(o.brief());
			return o.brief() == want ? "" : "expected " + want + ", observed " + o.full();
		});
	};
	int R = w.thorough() ? 70000 : 3000;
	for (int i = -R; i <= R; ++i) integer(i);
	for (int b = 0; b < 32; ++b) for (int d = -(w.thorough() ? 40 : 6); d <= (w.thorough() ? 40 : 6); ++d) { integer((1LL << b) + d); integer(-(1LL << b) + d); }
	for (long long p = 1; p < 10000000000LL; p *= 10) for (int k = 1; k <= 9; ++k) for (int d = -2; d <= 2; ++d) { integer(p * k + d); integer(-p * k + d); }
	// texts: which are numbers, and which numbers
	std::string abc = "01-+.e x";
	auto text = [&](const std::string & s)
	{
		std::string L = lit(s);
		w.item([&]() { return L; }, [&]() -> std::string
		{
			for (auto f : { "parse-integer", "parse-float", "int", "float" })
			{
				std::string bad = diff::program(w, std::string("(") + f + " " + L + ")");
				if (bad.empty()) bad = diff::program(w, std::string("(typestr (") + f + " " + L + "))");
				if (!bad.empty()) return bad;
			}
			// as literal in a program
			return diff::program(w, "(do (def v '(" + s + ")) (list v (len v) (map typestr v)))");
		});
	};
	for (int n = 0; n <= (w.thorough() ? 6 : 5); ++n)
	{
		mc::Odo o(n, n == 6 ? 7 : 8);
		do { std::string s; for (int d : o.d) s += abc[d]; text(s); } while (o.next());
	}
	for (auto t : { "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967295", "9999999999", "99999999999999999999", "0000000000000000000001", "-0", "+0", "00", "007", "-007", "+5", "1e5", "1E5", "1e+5", "1e-5", "1e", "e1", ".5", "5.", "-.5", "+.5", ".", "-", "+", "1.5.2", "1,5", "1_000", "0x10", "0b1", "1f", "1d", "1L", "#1", "1#", "12a", "a12", "--1", "1-", "1+", "-+1", " 12", "12 ", "\t7", "\n7", "1e2.5", "123456789012", "0.1", "0.000001", "3.14159265358979", "-7.25", "1234567.875", "1e15", "12345678901234567890.5" }) text(t);
	// every byte before, behind and inside of numbers
	for (int c = 1; c < 256; ++c) if (c != '"' && c != '\\') for (auto n : { "7", "-12", "3.5", "1e2" })
	{
		std::string b(1, (char)c), t = n;
		for (auto x : { b + t, t + b, t + b + b, t.substr(0, 1) + b + t.substr(1), t + b + "4", b + b + t + b }) w.item([&]() { return mc::q(x); }, [&]() -> std::string
		{
			for (auto f : { "parse-integer", "parse-float", "int", "float" }) { std::string bad = diff::program(w, std::string("(list (") + f + " \"" + x + "\") (typestr (" + f + " \"" + x + "\")))"); if (!bad.empty()) return bad; }
			return "";
		});
	}
	// doubles: every decimal with up to 6 digits has the value it spells
	auto dbl = [&](long long mant, int dec)
	{
		std::string m = std::to_string(mant < 0 ? -mant : mant);
		while ((int)m.size() <= dec) m = "0" + m;
		std::string n = (mant < 0 ? "-" : "") + m.substr(0, m.size() - dec) + "." + m.substr(m.size() - dec), full = n + std::string(6 - dec, '0');
		w.item([&]() { return "decimal " + n; }, [&]() -> std::string
		{
			std::string bad = diff::program(w, "(list " + n + " (parse-float \"" + n + "\") (float \"" + n + "\") (int " + n + ") (str " + n + ") (typestr " + n + "))");
			if (!bad.empty()) return bad;
			fx::Session s;
			fx::Out o = s.eval("(list (str " + n + ") (== " + n + " (parse-float (str " + n + "))))");
			w.traces(1);
			std::string want = "(\"" + full + "\" #t)";
			if (mant == 0) return "";
			return o.brief() == want ? "" : "expected " + want + ", observed " + o.full();
		});
	};
	for (int dec = 1; dec <= 6; ++dec) for (long long m = -(w.thorough() ? 3000 : 250); m <= (w.thorough() ? 3000 : 250); ++m) dbl(m, dec);
	for (int dec = 1; dec <= 6; ++dec) for (long long p = 1; p <= 1000000000; p *= 10) for (int k = 1; k <= 9; ++k) for (int d = -1; d <= 1; ++d) { dbl(p * k + d, dec); dbl(-p * k - d, dec); }
	// conversion of doubles to integers: towards zero, at every boundary
	const char * ds[] = { "0.0", "0.4", "0.5", "0.6", "0.999999", "1.0", "1.5", "2.5", "-0.4", "-0.5", "-0.999", "-1.5", "-2.5", "2147483646.5", "2147483647.0", "-2147483648.0", "-2147483647.5", "1e3", "1e9", "123456789.987", "2.9999999999", "3.0000000001", "0.99999999999", "1.99999999999999", "999999.9999999999", "2147483646.9999995", "1e-12", "-1e-12", "0.000001", "3.0000001" };
	for (auto d : ds) for (auto f : { "(int $)", "(nth (int $) '(a b c))", "(+ 1 (int $))", "(int (- $))", "(float (int $))", "(str (int $))", "(typestr (int $))", "(int (+ $ 0.5))", "(int (str $))", "(int (* 2 $))", "(slice \"abcdef\" $ 2)", "(list (== $ (int $)) (< $ (int $)) (> $ (int $)))", "(float $)", "(parse-integer (str $))", "(push 1 (list 1 2 3) $)" })
	{
		std::string s; for (const char * p = f; *p; ++p) { if (*p == '$') s += d; else s += *p; }
		one(s);
	}
	// values of every kind, and what the conversions give to functions
	const char * vals[] = { "1", "-3", "1.5", "#t", "#f", "\"12\"", "\"1.5\"", "\"\"", "\"x\"", "\"12x\"", "\" 12\"", "NIL", "'s", "(list)", "'(1)", "(nop)", "(make-dict)", "(fn (x) x)", "(list 1 2)", "\"#t\"" };
	for (auto a : vals) for (auto f : { "int", "float", "parse-integer", "parse-float", "str", "sym", "typestr", "type" })
	{
		one(std::string("(") + f + " " + a + ")");
		for (auto g : { "int", "float", "parse-integer", "parse-float", "str", "typestr", "type" }) { one(std::string("(") + g + " (" + f + " " + a + "))"); one(std::string("(do (def v ") + a + ") (def r (" + f + " v)) (list (" + g + " r) (typestr v) (typestr r)))"); }
		one(std::string("(") + f + ")"); one(std::string("(") + f + " " + a + " 1)");
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P26",
		"all integers -3000..3000 (thorough -70000..70000), around all powers of two and all multiples of powers of ten; all texts up to length 5 (6) over 8 characters and 55 further ones, parsed in four ways and written as literals; all decimals with 1..6 digits up to 250 (3000) units and around multiples of powers of ten; 32 doubles x 15 conversions; 20 values x 8 functions x 7 functions",
		"the number a text spells, computed by the reference interpreter; text and number are inverse to each other",
		{ "doubles outside of the range of int, denormal and infinite doubles are not judged" }, explore });
}
