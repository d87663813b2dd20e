// Reader: every sequence of tokens up to a length.
#include "mc.h"
#include "adapter.h"
#include "ref.h"
static std::string check(mc::W & w, const std::string & code)
{
	std::string want; bool err = false;
	try { want = ref::repr(ref::read(code)); }
	catch (ref::Unspecified & u) { w.tag("unspecified: " + u.why); return ""; }
	catch (ref::Err &) { err = true; }
	fx::Out got = fx::parse(code, 0);
	w.traces(1); w.steps(1);
	if (got.kind == fx::Out::Foreign) return "foreign exception " + got.msg;
	w.tag(err ? "rejected" : "accepted");
	w.state(err ? "rejected" : want);
	w.outcome(err ? "rejected" : want);
	if (err) return got.ok() ? "code accepted as " + got.repr + ", expected an error" : "";
	if (!got.ok()) return "code rejected (" + got.msg + "), expected " + want;
	return got.repr == want ? "" : "expected " + want + ", observed " + got.repr;
}
static void explore(mc::W & w)
{
	auto one = [&](const std::string & s) { w.item([&]() { return mc::q(s); }, [&]() { return check(w, s); }); };
	const char * tok[] = { "(", ")", "'", "`", ",", ",@", "a", "7", "\"s\"", "NIL", "#t", ";c\n", "-1.5" };
	int nt = 13;
	for (int n = 0; n <= (w.thorough() ? 6 : 5); ++n)
	{
		mc::Odo o(n, nt);
		do { std::string s = "(do"; for (int d : o.d) { s += ' '; s += tok[d]; } one(s + " )"); if (n < 5) one(s); } while (o.next());
	}
	// brackets, quotes and one symbol, deeper; with and without separators
	const char * t2[] = { "(", ")", "'", "a", ",@" };
	for (int n = 5; n <= (w.thorough() ? 10 : 8); ++n)
	{
		mc::Odo o(n, 5);
		do
		{
			if (o.d[0] != 0) break;
			std::string s; for (int d : o.d) s += t2[d];
			one(s);
		} while (o.next());
	}
	// depth and width
	for (int n = 1; n <= 300; ++n)
	{
		std::string a, b;
		for (int i = 0; i < n; ++i) { a += "(x "; b += " " + std::to_string(i); }
		one(a + std::string(n, ')'));
		one(a + std::string(n - 1, ')'));
		one(a + std::string(n + 1, ')'));
		one("(f" + b + ")");
		one("(f " + std::string(n, '\'') + "a)");
		one("(f ;" + b + "\n a)" + " ; end" + b);
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P03",
		"(do T) for all sequences T of up to 5 (thorough 6) of 13 tokens, and without the last bracket up to 4; all sequences of up to 8 (10) of ( ) ' a ,@ that start with (; nesting depth, width, quote runs and comments 1..300",
		"independent reader (mc/ref.cpp): the tree, or rejection",
		{ "only code in a list is judged: the evaluator always reads (do text)" }, explore });
}
