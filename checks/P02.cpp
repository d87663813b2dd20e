// Scanner: every text over an alphabet up to a length, every sequence of lexemes with separators.
#include "mc.h"
#include "adapter.h"
#include "ref.h"
#include <vector>

static std::string check(mc::W & w, const std::string & code, size_t off)
{
	std::vector<ref::Tok> want; bool err = false, lenient = false; // lenient: a backslash before a delimiter in a string may be rejected or stand for the delimiter
	try { want = ref::scan(code, (long)off, &lenient); }
	catch (ref::Unspecified & u) { w.tag("unspecified: " + u.why); return ""; }
	catch (ref::Err &) { err = true; }
	fx::TokOut got = fx::tokenize(code, off);
	w.traces(1);
	w.steps(code.size());
	if (got.kind == fx::Out::Foreign) return "foreign exception " + got.msg;
	w.tag(err ? "rejected" : "accepted");
	if (err) return got.kind == fx::Out::Value ? "text accepted, expected an error" : "";
	if (got.kind != fx::Out::Value && lenient) { w.tag("escaped delimiter rejected"); return ""; }
	if (got.kind != fx::Out::Value) return "text rejected: " + got.msg;
	std::string sig;
	if (got.toks.size() != want.size()) return "expected " + std::to_string(want.size()) + " tokens, observed " + std::to_string(got.toks.size());
	for (size_t i = 0; i < want.size(); ++i)
	{
		const ref::Tok & a = want[i]; const fx::Tok & b = got.toks[i];
		std::string at = "token " + std::to_string(i) + ": ";
		std::string ty = ref::Tok::name(a.t), val = a.s;
		sig += ty;
		if (fx::tokTypeName(b.type) != ty) return at + "expected type " + ty + ", observed " + fx::tokTypeName(b.type);
		if (a.t == ref::Tok::Int) val = std::to_string(a.i);
		else if (a.t == ref::Tok::Dbl) val = ref::repr(ref::mkDbl(a.d));
		else if (a.t == ref::Tok::True) val = "#t";
		else if (a.t == ref::Tok::False) val = "#f";
		else if (a.t == ref::Tok::Nil) val = "NIL";
		if (a.t == ref::Tok::Open || a.t == ref::Tok::Close || a.t == ref::Tok::Quote || a.t == ref::Tok::Quasi || a.t == ref::Tok::Unq || a.t == ref::Tok::UnqSpl) val = b.value;
		if (b.value != val) return at + "expected value " + mc::q(val) + ", observed " + mc::q(b.value);
		if (b.line != a.line) return at + "expected line " + std::to_string(a.line) + ", observed " + std::to_string(b.line);
		if (b.start != a.start) return at + "expected start " + std::to_string(a.start) + ", observed " + std::to_string(b.start);
		if (b.stop != a.stop) return at + "expected stop " + std::to_string(a.stop) + ", observed " + std::to_string(b.stop);
	}
	w.state(sig);
	w.outcome(sig);
	return "";
}
static void explore(mc::W & w)
{
	auto one = [&](const std::string & s, size_t off) { w.item([&]() { return mc::q(s) + (off ? " offset " + std::to_string(off) : ""); }, [&]() { return check(w, s, off); }); };
	// 1. characters
	const std::string abc = "()'`,@\"\\; \na1.-#t";
	int len = w.thorough() ? 6 : 5;
	for (int n = 0; n <= len; ++n)
	{
		mc::Odo o(n, (int)abc.size());
		do { std::string s; for (int d : o.d) s += abc[d]; one(s, 0); } while (o.next());
	}
	// 2. lexemes with separators
	const char * lex[] = { "(", ")", "'", "`", ",", ",@", "abc", "A-b?", "12", "-12", "+7", "1.5", "-.5", "1e3", "1.", "+", "-", "...", "true", "false", "#t", "#f", "nil", "NIL", "Nil", "tru", "#tx", "12ab", "1-",
		"\"\"", "\"s t\"", "\"a\\nb\"", "\"q\\\"q\"", "\"\\\\\"", "\"l\n2\"", "\";x\"", "\"\\t\\r\"", "\"\\x\"", ";c\n", ";\n", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "0x10", "1e999", "inf", "nan", "{", "a'b" };
	const char * sep[] = { "", " ", "\n", "\t", " \r\n" };
	int nl = sizeof lex / sizeof *lex, ns = sizeof sep / sizeof *sep;
	for (int n = 1; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo o(n, nl);
		do
		{
			int kinds = n <= 2 ? ns * ns : ns;
			for (int k = 0; k < kinds; ++k)
			{
				if (n == 3 && !w.thorough() && k > 1) break;
				if (n == 4 && k != 1) continue;
				std::string s; int c = k;
				for (int i = 0; i < n; ++i) { if (i) { s += sep[c % ns]; c = c / ns ? c / ns : c; } s += lex[o.d[i]]; }
				one(s, 0);
				if (n <= 2) { std::string t = "(do " + s + "\n)"; one(t, 4); }
			}
		} while (o.next());
	}
	// 3. long texts: every length of a word, number, string, run of blanks, brackets and comments
	for (int n = 1; n <= (w.thorough() ? 600 : 140); ++n)
	{
		std::string a(n, 'a'), z(n, '0');
		for (std::string s : { a, "\"" + a + "\"", std::string(n, ' ') + "x", std::string(n, '(') + std::string(n, ')'), ";" + a + "\nx", std::string(n, '\n') + "x", "1." + z + "1", "0." + a, std::string(n, '\'') + "a", "\"" + std::string(n, '\n') + "\" x" })
			one("(" + s + " y)", 0);
	}
	// white space of every kind and line ends of every kind, in and around comments, strings and words
	const std::string ws = " \t\r\n\v\f;\"a(";
	for (int n = 1; n <= (w.thorough() ? 6 : 5); ++n)
	{
		mc::Odo o(n, (int)ws.size());
		do { std::string s; for (int d : o.d) s += ws[d]; one(s, 0); } while (o.next());
	}
	// 4. every single byte in five contexts, all pairs of bytes in a word
	for (int c = 0; c < 256; ++c) for (int d = 0; d < 256; ++d) one("(" + std::string(1, (char)c) + std::string(1, (char)d) + "1", 0);
	for (int c = 0; c < 256; ++c)
		for (std::string s : { std::string(1, (char)c), "a" + std::string(1, (char)c) + "b", "\"" + std::string(1, (char)c) + "\"", ";" + std::string(1, (char)c) + "\n1", "1" + std::string(1, (char)c) })
			one(s, 0);
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P02",
		"all texts over 17 characters up to length 5 (thorough 6); all sequences of up to 3 (4) of 51 lexemes with separators, bare and inside (do ..); every length 1..140 (600) of words, numbers, strings, blanks, brackets, comments; all texts over 10 characters of white space, comment, string, word and bracket up to length 5 (6); every byte in 5 contexts, all pairs of bytes",
		"independent scanner (mc/ref.cpp): kind, value, start, stop and line of every token, or rejection",
		{ "texts with a backslash outside of a string and unterminated strings are not judged; a backslash before a delimiter in a string may be rejected or stand for the delimiter" }, explore });
}
