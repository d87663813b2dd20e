// Data survives being printed and read back.
#include "diff.h"
#include "gram.h"
#include <cstring>
static void explore(mc::W & w)
{
	auto esc = [](const std::string & s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; };
	// a string alone is written without its quotes, as element of a list with them
	auto law = [&](const std::string & e0)
	{
		const std::string e = "(" + e0 + ")";
		w.item([&]() { return e; }, [&]() -> std::string
		{
			std::string bad = diff::history(w, { "(def v '" + e + ")", "(def t (str v))", "(def u (evalstr (+ \"(quote \" t \")\")))", "(list (== u v) (== t (str u)) u v)", "(println v)" });
			if (!bad.empty()) return bad;
			// on the implementation: text, output and the text written to a string and read by another session agree
			fx::Session s, r;
			s.eval("(def v '" + e + ")");
			fx::Out a = s.eval("(do (print v))");
			std::string printed = s.takeOutput();
			std::string shown = s.eval("(str v)").text;
			w.traces(1);
			if (printed != shown) return "print writes " + printed + ", str gives " + shown;
			fx::Out b = r.eval("(do (def v '" + printed + ") (print v) (list v))"), c = s.eval("(list v)");
			if (!b.ok()) return "the text " + printed + " can not be read back: " + b.full();
			if (b.repr != c.repr) return "written as " + printed + " the value " + c.repr + " comes back as " + b.repr;
			if (r.takeOutput() != printed) return "the text changes when it is read back: " + printed;
			r.eval("(def t \"" + esc(printed) + "\")");
			b = r.eval("(list (evalstr (+ \"'\" t)))");
			if (b.repr != c.repr) return "evalstr of the text gives " + b.repr + " for " + c.repr;
			r.setInput(printed); r.eval("(def t (readline))");
			if (printed.find('\n') == std::string::npos) { b = r.eval("(list (evalstr (+ \"'\" t)))"); if (b.repr != c.repr) return "readline of the text gives " + b.repr + " for " + c.repr; }
			return "";
		});
	};
	gram::G g;
	g.add('E', { "0", "-1", "2147483647", "1.5", "-0.25", "2.0", "#t", "#f", "a", "+", "x-y", "#p", "\"s\"", "\"\"", "\"a b\"", "\"(1 2)\"", "\"; no comment\"", "\"12\"", "\"#t\"", "\"'q\"", "NIL", "()", "($E)", "($E $E)", "($E $E $E)", "'$E", "`$E", ",$E", ",@$E" });
	for (int n = 1; n <= (w.thorough() ? 5 : 4); ++n) g.each('E', n, [&](const std::string & e) { if (e[0] != ',') law(e); });
	// deep and wide
	for (int d = 1; d <= (w.thorough() ? 40 : 16); ++d) for (auto x : { "", "1", "\"s\"", "a", "1.5", "#t 2" })
	{
		law(std::string(d, '(') + x + std::string(d, ')'));
		std::string l = "("; for (int i = 0; i < d; ++i) l += std::string(x) + " " + std::to_string(i) + " ("; l += "z"; for (int i = 0; i < d; ++i) l += ") b"; law(l + ")");
		std::string k = "("; for (int i = 0; i < d * 5; ++i) k += std::string(" ") + x + " " + std::to_string(i * 37); law(k + ")");
	}
	// every printable byte in a string and in a symbol
	for (int c = 32; c < 127; ++c)
	{
		if (c == '"' || c == '\\') continue;
		std::string ch(1, (char)c);
		for (auto & s : { ch, "a" + ch, ch + "b", "a" + ch + "b", ch + ch }) { law("\"" + s + "\""); law("(1 \"" + s + "\" a \"" + s + "\")"); }
		if (!strchr("()'`,;\" @#", c)) for (auto & s : { "a" + ch, "a" + ch + "b", "-" + ch + "x" }) { law(s); law("(" + s + " " + s + ")"); }
	}
	// numbers of every magnitude and with every fraction that six decimals show
	for (const char * sign : { "", "-" })
	{
		for (int e = 0; e <= 17; ++e) for (int m = 1; m <= 9; ++m) for (auto f : { "0", "5", "25", "125", "000001" }) { std::string x = sign + std::to_string(m) + std::string(e, '0'); if (e > 8 && std::string(f) == "000001") continue; law(x + "." + f); law("(a " + x + "." + f + " " + (e < 9 ? x : std::string("1")) + ")"); }
		for (int k = 0; k <= 64; ++k) { char b[60]; snprintf(b, sizeof b, "%s%d.%06d", sign, k % 3, k * 15625); law(b); }
		for (int k = 0; k < 31; ++k) for (int d = -1; d <= 1; ++d) { long v = (1l << k) + d; law(sign + std::to_string(v)); law("(" + (sign + std::to_string(v)) + " " + sign + std::to_string(v) + ".0)"); }
		for (auto x : { "2147483647", "2147483646", "1e3", "1.5e2", "1e15", "9007199254740992.0", "123456789.5", "0.000001", "0.0" }) law(std::string(sign) + x);
	}
	for (int c = 128; c < 256; ++c) law(std::string("(\"x") + (char)c + "y\")");
	// strings, symbols and lists of every length
	for (int n = 1; n <= (w.thorough() ? 400 : 150); ++n)
	{
		std::string a(n, 'a'), b; for (int i = 0; i < n; ++i) b += "ab c(;)'1."[(i * 7 + i / 9) % 10];
		law("\"" + b + "\""); law("(1 \"" + b + "\" " + a + ")"); law(a); law("(" + a + " " + a + "b)");
		std::string l = "("; for (int i = 0; i < n; ++i) l += i % 4 == 0 ? "1.5 " : i % 4 == 1 ? "\"s\" " : i % 4 == 2 ? "'q " : "(x) "; if (n <= 120) law(l + ")");
		if (n <= 60) { law(std::string(n, '\'') + "a"); law("(b " + std::string(n, '`') + "(a))"); if (n > 16) law(std::string(n, '(') + std::string(n, ')')); }
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P33",
		"all data expressions up to size 4 (thorough 5) over 29 forms (numbers, truth values, symbols, strings, quotes of every kind, lists); nesting depths 1..16 (40) and widths up to 80 (200); every byte in strings and symbols; numbers with every power of ten up to 17 and of two up to 31, its neighbours and fractions; each printed, shown and read back in five ways; strings, symbols and lists of every length up to 150 (400)",
		"value read back equals the value written (on the implementation, by its canonical rendering) and the text is the one of the reference interpreter",
		{ "strings containing quotes or backslashes are printed without escapes by design and are not judged; doubles are printed with six decimals, values with more are not judged" }, explore });
}
