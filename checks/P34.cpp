// Math functions.
#include "diff.h"
#include <cmath>
static void explore(mc::W & w)
{
	auto one = [&](const std::string & p) { w.item([&]() { return p; }, [&]() { return diff::program(w, p); }); };
	const char * fs[] = { "Sin", "Sinh", "Asin", "Cos", "Cosh", "Acos", "Tan", "Tanh", "Atan", "Exp", "Log", "Log10", "Sqrt", "Round", "Truncate", "Abs", "Floor", "Ceiling" };
	std::vector<std::string> xs = { "0", "1", "-1", "2", "-2", "10", "100", "1000", "-1000", "2147483647", "-2147483648", "\"2\"", "\"1.5\"", "#t", "#f", "1e9", "1e-6", "123456.75", "-123456.75", "1e15", "0.1", "0.2", "0.3", "0.7" };
	int R = w.thorough() ? 4000 : 200;
	for (int i = -R; i <= R; ++i) { char b[40]; snprintf(b, sizeof b, "%.3f", i / 8.0); xs.push_back(b); }
	for (auto f : fs)
	{
		one(std::string("(Math-") + f + ")");
		for (auto & x : xs)
		{
			one(std::string("(Math-") + f + " " + x + ")");
			one(std::string("(do (def v (list ") + x + ")) (def r (Math-" + f + " (first v))) (list v (typestr r)))");
		}
		for (auto x : { "NIL", "'s", "(list)", "'(1)", "(nop)", "(make-dict)", "\"\"", "\"x\"", "(fn (x) x)", "1 2", "(list 1) 2" }) one(std::string("(Math-") + f + " " + x + ")");
		for (auto g : fs) for (auto x : { "0.5", "1", "2.25", "-0.75", "-3" }) one(std::string("(Math-") + f + " (Math-" + g + " " + x + "))");
	}
	const char * ps[] = { "0", "1", "2", "3", "-1", "-2", "10", "0.5", "-0.5", "1.5", "2.0", "\"2\"", "#t", "31", "1e3", "0.1", "-3", "16", "-7.5", "NIL", "'s", "(list)" };
	for (auto a : ps) { one(std::string("(Math-Pow ") + a + ")"); for (auto b : ps) one(std::string("(Math-Pow ") + a + " " + b + ")"); }
	one("(Math-Pow)"); one("(Math-Pow 1 2 3)"); one("(Math-Pi)"); one("(Math-Pi 1)"); one("(list (Math-Pi) (typestr (Math-Pi)) (Math-Sin (Math-Pi)) (Math-Cos (Math-Pi)))");
	// laws on the implementation, independent of the mathematics library of the reference
	const char * laws[] = {
		"(== (Math-Floor X) (- (Math-Ceiling (- X))))", "(and (<= (Math-Floor X) X) (< (- X (Math-Floor X)) 1.0))", "(== (Math-Abs X) (Math-Abs (- X)))", "(>= (Math-Abs X) 0.0)", "(== (Math-Truncate X) (int X))",
		"(<= (Math-Abs (- X (Math-Round X))) 0.5)", "(== (Math-Round X) (Math-Truncate (Math-Round X)))", "(== (Math-Sqrt (* X X)) (Math-Abs X))", "(== (Math-Sin X) (- (Math-Sin (- X))))", "(== (Math-Cos X) (Math-Cos (- X)))",
		"(== 1.0 (+ (* (Math-Sin X) (Math-Sin X)) (* (Math-Cos X) (Math-Cos X))))", "(== (Math-Pow X 2) (* X X))", "(== (Math-Atan X) (- (Math-Atan (- X))))", "(== (Math-Tanh X) (- (Math-Tanh (- X))))", "(== (Math-Log (Math-Exp X)) X)", "(== (Math-Tan (Math-Atan X)) X)", "(== (Math-Log10 (Math-Pow 10 X)) X)", "(== (Math-Sin (Math-Asin (/ X 1000.0))) (/ X 1000.0))", "(== (Math-Cos (Math-Acos (/ X 1000.0))) (/ X 1000.0))", "(== (Math-Tan X) (/ (Math-Sin X) (Math-Cos X)))", "(== (Math-Sinh X) (/ (- (Math-Exp X) (Math-Exp (- X))) 2.0))", "(== (Math-Cosh X) (/ (+ (Math-Exp X) (Math-Exp (- X))) 2.0))" };
	int K = w.thorough() ? 60 : 24;
	for (auto l : laws) for (int i = -K; i <= K; ++i)
	{
		char b[40]; snprintf(b, sizeof b, "%.4f", i / 8.0);
		std::string s; for (const char * p = l; *p; ++p) { if (*p == 'X') s += b; else s += *p; }
		w.item([&]() { return s; }, [&]() -> std::string { fx::Session q; fx::Out o = q.eval(s); w.traces(1); w.steps(1); w.state(s); w.outcome(o.brief()); return o.brief() == "#t" ? "" : "expected #t, observed " + o.full(); });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P34",
		"18 functions on multiples of 1/8 between -25 and 25 (thorough -500..500), integers, boundary values, strings, truth values and all other kinds of values; all compositions of two functions on 5 values; Math-Pow on all pairs of 22 values; 22 laws on 49 (121) values",
		"the mathematics library of C in the reference interpreter; algebraic laws on the implementation", {}, explore });
}
