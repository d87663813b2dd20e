// Arithmetic, bitwise and logical operators over numbers.
#include "diff.h"
static void explore(mc::W & w)
{
	auto one = [&](const std::string & p) { w.item([&]() { return p; }, [&]() { return diff::program(w, p); }); };
	const char * pool[] = { "0", "1", "-1", "2", "-2", "3", "-3", "5", "7", "-7", "8", "10", "15", "16", "31", "32", "33", "-31", "100", "255", "256", "-256", "1000", "65535", "65536", "1000000", "46341", "-46341", "1073741823", "1073741824", "-1073741824", "2147483646", "2147483647", "-2147483647", "-2147483648",
		"0.0", "0.5", "-0.5", "1.0", "1.5", "-1.5", "2.0", "2.5", "-7.25", "3.0", "0.1", "1e-9", "1e9", "1e10", "-1e10", "123456.789", "#t", "#f", "\"\"", "\"a\"", "\"1\"", "\"12\"", "\"x1\"", "NIL", "'s", "(list)", "'(1 2)", "'(\"a\")", "(nop)", "(make-dict)", "+" };
	const int np = sizeof pool / sizeof *pool;
	const char * ops[] = { "+", "-", "*", "/", "%", "add", "sub", "mul", "div", "mod", "string", "|", "&", "^", "<<", ">>", "~", "!", "not", "<", ">", "<=", ">=", "==", "!=" };
	for (auto op : ops)
	{
		one(std::string("(") + op + ")");
		for (int a = 0; a < np; ++a)
		{
			one(std::string("(") + op + " " + pool[a] + ")");
			for (int b = 0; b < np; ++b) one(std::string("(") + op + " " + pool[a] + " " + pool[b] + ")");
		}
	}
	// dense small integers
	int r = w.thorough() ? 70 : 18;
	for (int k = 0; k < 16; ++k)
		for (int a = -r; a <= r; ++a)
			for (int b = -r; b <= r; ++b)
			{
				const char * o2[] = { "+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=" };
				one(std::string("(") + o2[k] + " " + std::to_string(a) + " " + std::to_string(b) + ")");
			}
	// folds of three and four operands
	const char * p3[] = { "0", "1", "-7", "3", "2147483647", "-2147483648", "0.5", "-2.0", "\"a\"", "#t", "(list 1)", "NIL" };
	const char * o3[] = { "+", "-", "*", "/", "%", "string" };
	for (auto op : o3)
		for (int n = 3; n <= (w.thorough() ? 5 : 4); ++n)
		{
			mc::Odo o(n, n == 3 ? 12 : n == 4 ? 7 : 7);
			do { std::string s = std::string("(") + op; for (int d : o.d) s += std::string(" ") + p3[d]; one(s + ")"); } while (o.next());
		}
	// nested: (op1 (op2 a b) c) and (op1 a (op2 b c)) over variables holding ints and doubles
	const char * o4[] = { "+", "-", "*", "/", "%", "<", "==", "&", "-" };
	const char * v4[] = { "i", "j", "z", "d", "3", "-2.5", "(- i)" };
	for (auto a : o4) for (auto b : o4) for (auto x : v4) for (auto y : v4) for (auto z : v4)
	{
		if (!w.thorough() && (x == v4[3] || y == v4[5])) continue;
		std::string pre = "(def i 17) (def j -5) (def z 0) (def d 2.5) ";
		one(pre + "(list (" + a + " (" + b + " " + x + " " + y + ") " + z + ") i j z d)");
		one(pre + "(list (" + a + " " + x + " (" + b + " " + y + " " + z + ")) i j z d)");
	}
	// long operand lists: the fold does not depend on the number of operands
	for (int n = 1; n <= 200; ++n)
	{
		std::string s, d;
		for (int i = 0; i < n; ++i) { s += " " + std::to_string((i * 7) % 23 - 9); d += i % 3 ? " 1" : " 0.25"; }
		for (auto op : { "+", "-", "*" }) { one(std::string("(") + op + s + ")"); one(std::string("(") + op + d + ")"); }
		one("(+ \"s\"" + s + ")");
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P04",
		"25 operators on all single values and pairs of 66 values; 16 binary operators on all pairs of integers -18..18 (thorough -70..70); folds of 3 and 4 (5) operands over boundary values; all two-level nestings of 9 operators over 7 operands; operand lists of every length 1..200",
		"reference interpreter: 32 bit two's complement and double arithmetic, string concatenation, list concatenation, or an error",
		{ "conversion of doubles outside the range of int and the text of containers in concatenations are not judged" }, explore });
}
