// Breakpoints.
#include "dbg.h"
#include "diff.h"
#include "scratch.h"
static scratch::Dir dir;
typedef std::map<std::string, std::string> Files;
static void explore(mc::W & w)
{
	const Files mods = { { "m.fuel", "(def mv 5)\n(defn mf (x)\n (do\n  (+ x mv)))" }, { "a b.fuel", "(defn ab (x)\n (list x))" } };
	const std::string prog = "(import \"m.fuel\"\n \"a b.fuel\")\n(def i 0)\n(while (< i 3)\n (do (setf i (+ i 1))\n  (println (mf i)\n   (ab i))))\n(list i)";
	auto many = [&](const std::string & p, const std::vector<std::string> & c, const Files & ms)
	{
		w.item([&]() { return diff::join(c, "; "); }, [&]() -> std::string
		{
			Files f = ms; f["prog.fuel"] = p;
			static Files on; if (on != f) { dir.enter(); for (auto & x : f) scratch::put(x.first, x.second); on = f; }
			return dbg::session(w, p, "prog.fuel", c, f);
		});
	};
	auto one = [&](const std::string & p, const std::vector<std::string> & c) { many(p, c, mods); };
	// histories of set, replace, clear and show, then the program runs
	const std::vector<std::string> ops = { "b 3", "b 5", "b 6 (== i 2)", "b 6", "b 3 #f", "b m.fuel:4", "b m.fuel:4 (> x 1)", "b \"m.fuel\":4 (== x 3)", "b \"a b.fuel\":2", "b \"prog.fuel\":7", "b :5", "b m.fuel:x", "break 8", "b 99", "b -1", "b other.fuel:5", "clear 1", "clear 2", "clear 0", "clear -1", "clear x", "clear 3", "clear|y", "clear|n", "clear|maybe|Yes", "list", "b 4 (do (setf i (+ i 1)) (first (list #t)))", "b 5 (nosuch)", "b 6   (== (println \"c\" i) \"c 2\")", "c", "r", "s" };
	int n = (int)ops.size();
	auto expandOps = [&](const std::vector<int> & h) { std::vector<std::string> c; for (int d : h) { std::string s = ops[d]; size_t p; while ((p = s.find('|')) != std::string::npos) { c.push_back(s.substr(0, p)); s = s.substr(p + 1); } c.push_back(s); } c.push_back("list"); for (int i = 0; i < 5; ++i) { c.push_back("r"); c.push_back("l"); } c.push_back("list"); return c; };
	for (int k = 1; k <= (w.thorough() ? 4 : 3); ++k) { mc::Odo o(k, n); do one(prog, expandOps(o.d)); while (o.next()); }
	// every text of a break command
	const char * tok[] = { "3", "m.fuel", ":", "\"", " ", "#t", "x", "-", "04", "prog.fuel" };
	for (int k = 0; k <= (w.thorough() ? 6 : 5); ++k) { mc::Odo o(k, 10); do { std::string s = "b "; for (int d : o.d) s += tok[d]; one("(list 1)\n(list 2)\n(list 3)\n(list 4)", { s, "list", "r", "r" }); } while (o.next()); }
	// and of a clear command
	const char * tok2[] = { "1", "2", "0", " ", "-", "x", "3" };
	for (int k = 0; k <= (w.thorough() ? 5 : 4); ++k) { mc::Odo o(k, 7); do { std::string s = "clear"; for (int d : o.d) s += tok2[d]; one("(list 1)\n(list 2)", { "b 1", "b 2", "b 7", s, "n", "list", "r", "r" }); } while (o.next()); }
	// modules in folders: a breakpoint names the file with or without its path
	{
		const std::string p2 = "(import \"sub/m.fuel\" \"sub/deep/n.fuel\")\n(def i 0)\n(while (< i 2)\n (do (setf i (+ i 1))\n  (println (mf i)\n   (nf i)\n   (evalstr \"(+ 4\n (/ i 2.0))\"))))\n(list i)";
		const char * bp[] = { "b m.fuel:3", "b sub/m.fuel:3", "b ./sub/m.fuel:3", "b \"sub/m.fuel\":3 (> x 1)", "b other/m.fuel:3", "b n.fuel:2", "b deep/n.fuel:2", "b sub/deep/n.fuel:2", "b sub\\m.fuel:3", "b /m.fuel:3", "b m.fuel/:3", "b xm.fuel:3", "b fuel:3", "b /:3", "b :3", "b 2", "b prog.fuel:6", "b sub/prog.fuel:6", "b sub/m.fuel:2", "b 2.0))\":2", "clear 1", "c", "b M.FUEL:3", "b sub/M.fuel:3", "b Prog.fuel:6" };
		for (int k = 1; k <= (w.thorough() ? 3 : 2); ++k) { mc::Odo o(k, 25); do { std::vector<std::string> c; for (int d : o.d) c.push_back(bp[d]); for (int i = 0; i < 6; ++i) { c.push_back("r"); if (i < 2) c.push_back("c"); } c.push_back("list"); many(p2, c, { { "sub/m.fuel", "(defn mf (x)\n (do (def y x)\n  (+ x y)))" }, { "sub/deep/n.fuel", "(defn nf (x)\n (list x))" } }); } while (o.next()); }
	}
	// numbers of any size
	for (auto n : { "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967298", "8589934593", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551618", "99999999999999999999999999", "00000000000000000001", "+1", "-2147483648", "-2147483649", "-4294967295", "-4294967294", "-18446744073709551615", "1.0", "1e0", "0x1", "1x", "010" })
		for (auto pre : { "b ", "b m.fuel:", "b \"prog.fuel\":", "clear ", "clear", "break  " }) for (auto post : { "", " #t", " " })
			one("(list 1)\n(list 2)", { "b 1", "b 2", "b 7", std::string(pre) + n + post, "list", "c", "r", "r", "r" });
	// all sets of breakpoints of a program, marked in its code and hit
	int lines = 9;
	for (int set = 0; set < 1 << lines; ++set) for (int rev = 0; rev < 2; ++rev)
	{
		std::vector<std::string> c; for (int i = 0; i < lines; ++i) { int l = rev ? lines - i : i + 1; if (set >> (l - 1) & 1) c.push_back("b " + std::to_string(l)); }
		c.push_back("c"); c.push_back("list"); for (int i = 0; i < 14; ++i) c.push_back("r");
		one(prog, c);
	}
	// clearing any sequence of numbers
	for (int m = 0; m <= 5; ++m) for (int k = 1; k <= 3; ++k) { mc::Odo o(k, 7); do { std::vector<std::string> c; for (int i = 0; i < m; ++i) c.push_back("b " + std::to_string(3 + i) + (i % 2 ? " #t" : "")); for (int d : o.d) c.push_back("clear " + std::to_string(d)); c.push_back("list"); for (int i = 0; i < 8; ++i) c.push_back("r"); one(prog, c); } while (o.next()); }
	// conditions are kept as they are written, and mean what they say
	const char * blank[] = { " ", "  ", "   ", "\t" };
	for (auto b1 : blank) for (auto b2 : blank) for (auto b3 : blank) for (auto form : { "(==@i~2)", "(==@(+ \"a~b\" \"\") \"a~b\")", "(do@(println \"x~y\")~(== 1 1))", "(> i@1)~; why", "(first (list #t))@~", "(== 2@(len '(a~b)))", "(and~(> i 0)@(< i 3))", "(== (first (list~\"#t\"@)) \"#t\")", "(evalstr@\"(==~i 1)\")" })
	{
		std::string c; for (const char * p = form; *p; ++p) { if (*p == '@') c += b2; else if (*p == '~') c += b3; else c += *p; }
		one(prog, { std::string("b 6") + b1 + c, "list", std::string("break") + b1 + "m.fuel:4" + b1 + c, "list", "r", "c", "r", "l", "r", "r", "r" });
	}
	for (int n = 1; n <= (w.thorough() ? 200 : 60); ++n) for (auto form : { "and", "or", "do", "list" })
	{
		std::string c = std::string("(") + form; for (int i = 0; i < n; ++i) c += i == n - 1 ? " (== i 2)" : std::string(form) == "or" ? " (> i " + std::to_string(i + 9) + ")" : " (< i " + std::to_string(i + 9) + ")"; c += ")"; if (std::string(form) == "list") c = "(last " + c + ")";
		std::string d; for (int i = 0; i < n; ++i) d += std::string(form) == "or" ? "(or #f " : "(and #t "; d += "(== i 2)" + std::string(n, ')');
		one(prog, { "b 6 " + c, "list", "r", "c", "r", "r" }); one(prog, { "b 6 " + d, "list", "r", "c", "r", "r" });
	}
	// many breakpoints: their numbers, conditions and places, each one replaced and cleared
	std::string longp = "(def i 0)\n"; for (int i = 0; i < 120; ++i) longp += i % 3 == 2 ? "; c\n" : "(setf i\n (+ i 1))\n";
	for (int n = 1; n <= (w.thorough() ? 60 : 24); ++n) for (int k = 0; k < 6; ++k)
	{
		std::vector<std::string> c;
		for (int i = 0; i < n; ++i) { int l = k == 1 ? 3 * (n - i) : k == 2 ? 7 * i % 200 + 1 : k == 3 ? i / 2 + 2 : 3 * i + 2; c.push_back("b " + std::to_string(l) + (k == 4 ? " (> i " + std::to_string(i) + ")" : k == 5 && i % 2 ? " #f" : "")); }
		c.push_back("list"); c.push_back("clear " + std::to_string(n / 2 + 1)); c.push_back(c[n - 1] + " "); c.push_back(c[0] + (k % 2 ? "" : " (> i 1)")); c.push_back("clear 1"); c.push_back("list"); for (int i = 0; i < n + 2; ++i) c.push_back(i % 4 == 1 ? "v" : "r"); c.push_back("c"); c.push_back("list");
		one(longp, c);
	}
	// a line of every number
	for (int n = 1; n <= (w.thorough() ? 2000 : 300); ++n) { std::string p; for (int i = 1; i < n; ++i) p += i % 9 ? "\n" : "; c\n"; p += "(list 1)\n(list 2)\n"; one(p, { "b " + std::to_string(n + 1), "b " + std::to_string(n), "list", "r", n < 40 ? "c" : "l", "r", "l", "r" }); }
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P22",
		"all histories up to length 3 (thorough 4) of 32 operations (set, replace, conditions, modules, clear, list) followed by a run of a program with two modules; all break commands of up to 5 (6) of 10 lexemes, all clear commands of up to 4 (5) of 7; all 1..2 (3) of 25 breakpoints for modules in folders; 26 numbers up to far beyond the range of an int in 18 commands; all 512 sets of breakpoint lines in both orders; all clears of up to 3 numbers; conditions of 9 forms with blanks of every kind between their parts and of every length up to 60 (200) operands; 1..24 (60) breakpoints in 6 arrangements, replaced and cleared; lines of every number up to 300 (2000)",
		"reference debugger on the reference interpreter: the complete transcript and the result",
		{ "only the first breakpoint of a line decides whether it is hit" }, explore });
}
