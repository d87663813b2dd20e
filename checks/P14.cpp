// format, print and println, str.
#include "diff.h"
static void explore(mc::W & w)
{
	auto one = [&](const std::string & p) { w.item([&]() { return p; }, [&]() { return diff::program(w, p); }); };
	// 1. every format of up to n pieces
	const char * piece[] = { "{0}", "{1}", "{2}", "{0,5}", "{1,-5}", "{0,1}", "{2,10}", "{", "}", "a", " ", "{}", "{a}", "{ 0}", "0}", "{0", "{{", "}}", "{4}", "{3}", "\\n", ",", "{10}" };
	const char * args[] = { "", " 1", " \"ab\" 2", " \"{1}\" \"{0}\" 'x", " 1.5 #t NIL", " \"\" \"longer text\" '(1 2) 4 5", " \"{\" \"}\" \"0\"" };
	for (int n = 0; n <= (w.thorough() ? 4 : 3); ++n)
	{
		mc::Odo o(n, n == 4 ? 15 : 23);
		do
		{
			std::string f; for (int d : o.d) f += piece[d];
			for (int k = 0; k < 7; ++k) { if (n == 3 && !w.thorough() && k % 2) continue; if (n == 4 && k != 2 && k != 3) continue; one("(format \"" + f + "\"" + args[k] + ")"); }
		} while (o.next());
	}
	for (int wd = 0; wd <= (w.thorough() ? 2500 : 400); wd += 1 + wd / 30) for (auto v : { "\"\"", "\"a\"", "\"abcde\"", "12345", "-1.5", "#t", "'sym", "(list 1 \"b\")", "\"abcdefghijklmnopqrstuvwxyz\"" }) for (auto sg : { "", "-" })
	{
		one("(format \"[{0," + std::string(sg) + std::to_string(wd) + "}]\" " + v + ")");
		one("(format \"{1}[{0," + std::string(sg) + std::to_string(wd) + "}]{1}\" " + v + " " + v + ")");
	}
	// huge widths
	for (auto wd : { "9999", "10001", "65536", "999999", "1000000", "10000000", "2147483647", "2147483648", "4294967295", "4294967301", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551621", "99999999999999999999999999" }) for (auto sg : { "", "-" }) for (auto v : { "1", "\"ab\"", "\"\"" })
	{
		one("(len (format \"[{0," + std::string(sg) + wd + "}]\" " + v + "))");
		// whether a width of a million or more is an error is not specified, but it never leaves the interpreter as a native exception
		std::string p = "(len (format \"[{0," + std::string(sg) + wd + "}]\" " + v + "))";
		w.item([&]() { return "native: " + p; }, [&]() -> std::string { fx::Session s; fx::Out r = s.eval(p); w.traces(1); return r.kind == fx::Out::Foreign ? "native exception: " + r.msg : ""; });
		one("(list (len (format \"{1,3}{0," + std::string(sg) + wd + "}\" " + v + " 2)) (println 1))");
	}
	// 2. print and println: what is written and what is returned
	const char * vals[] = { "1", "-2.5", "\"s\"", "\"\"", "\"a b\"", "\"q\\\"\"", "\"n\\nn\"", "#t", "#f", "NIL", "'sym", "(list)", "(list 1 \"x\" 'y)", "'(a (b \"c\") 1.5)", "(nop)", "(list NIL (list))", "d", "(list (list (list 1)))", "x", "unb", "1e10", "0.1", "2147483647", "f" };
	const int nv = sizeof vals / sizeof *vals;
	const std::string pre = "(def d (make-dict)) (def x 7) (defn f (a b) 1) (dict-set d \"k\" \"v\") (dict-set d 1 (list \"s\")) ";
	for (auto f : { "print", "println", "str", "string", "list" }) for (int n = 0; n <= 3; ++n)
	{
		if (std::string(f) == "str" && n > 1) continue;
		mc::Odo o(n, n == 3 ? 10 : nv);
		do { std::string s = std::string("(") + f; for (int d : o.d) s += std::string(" ") + vals[d]; one(pre + s + ")"); } while (o.next());
	}
	for (auto a : vals) for (auto b : vals)
	{
		one(pre + "(list (print " + a + ") (println " + b + ") (print \"z\"))");
		one(pre + "(do (def l (list " + std::string(a) + " (list " + b + "))) (println l) (str l))");
		one(pre + "(do (def e (make-dict)) (dict-set e \"a\" " + std::string(a) + ") (dict-set e \"b\" " + b + ") (println e) (str e))");
	}
	// 3. sequences of outputs: nothing is lost, repeated or reordered
	const char * st[] = { "(print 1)", "(println 2)", "(print \"\")", "(println)", "(print \"a\" 3)", "(println (print \"i\") (print \"j\"))", "(flush)", "(p \"in\")", "(print \"line\\n\")", "(first (list))", "(if #t (print \"t\"))" };
	for (int n = 1; n <= (w.thorough() ? 5 : 4); ++n) { mc::Odo o(n, 11); do { std::string s; for (int d : o.d) s += std::string(st[d]) + " "; one("(defn p (s) (do (print \"<\" s) (println \">\"))) " + s); } while (o.next()); }
	for (int n = 0; n <= (w.thorough() ? 3000 : 600); n += 1 + n / 40) { std::string s(n, 'x'); one("(list (print \"" + s + "\") (println \"" + s + "\"))"); std::string l; for (int i = 0; i < n; ++i) l += " " + std::to_string(i); if (n < 800) { one("(println" + l + ")"); one("(str '(" + l + "))"); } }
	// 4. readline
	for (auto in : { "", "a", "a\nb", "a b\n\nc", "\n", "1\n2\n3", "  x ", "\"q\"" }) for (auto p : { "(readline)", "(list (readline) (readline))", "(do (println (readline)) (print (readline)) (readline))", "(len (readline))" })
		w.item([&]() { return std::string(p) + " input " + mc::q(in); }, [&]() { diff::Opt o; o.input = in; return diff::program(w, p, o); });
	auto lines = [&](const std::string & in, const std::string & p) { w.item([&, in, p]() { return p + " input " + mc::q(in); }, [&, in, p]() { diff::Opt o; o.input = in; return diff::program(w, p, o); }); };
	for (int c = 1; c < 256; ++c) for (auto form : { "@", "a@b", "@\nx", "a@\nb@\n", "\n@", "@@\n\n@" })     // every character at every kind of position
	{
		std::string in; for (const char * q = form; *q; ++q) in += *q == '@' ? (char)c : *q;
		lines(in, "(list (readline) (readline) (readline) (readline))");
	}
	{ mc::Odo o(w.thorough() ? 6 : 5, 4); do { std::string in; for (int d : o.d) in += "a\n\r "[d]; lines(in, "(do (def r (list)) (while (< (len r) 8) (setf r (append r (list (readline))))) (first (list r)))"); } while (o.next()); }
	for (int n = 0; n <= (w.thorough() ? 600 : 150); ++n)
	{
		std::string many, one; for (int i = 0; i < n; ++i) { many += "line " + std::to_string(i) + "\n"; one += (char)('a' + i % 26); }
		lines(many, "(do (def i 0) (while (< i " + std::to_string(n + 2) + ") (do (println i (readline)) (setf i (+ i 1)))))");
		lines(one + "\n" + one, "(list (readline) (readline) (readline))");
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P14",
		"all format strings of up to 3 (thorough 4) of 23 pieces x 7 argument lists; widths 0..400 (2500) and 15 up to beyond 2^64, both alignments; print, println, str and string on all tuples of 24 values up to length 3; values nested in lists and dictionaries; all sequences of up to 4 (5) of 11 output statements; outputs of growing length; readline on inputs with every byte at 6 kinds of position, all inputs of 5 (6) characters out of letter, LF, CR and blank, every number and length of lines up to 150 (600)",
		"reference interpreter: bytes written and value returned",
		{ "placeholder numbers above 4 and malformed placeholders are not judged" }, explore });
}
