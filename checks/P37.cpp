// The questions of the prompt about what is defined, in all histories of definitions.
#include "dbg.h"
#include "diff.h"
#include "scratch.h"
static scratch::Dir dir;
typedef std::map<std::string, std::string> Files;
static void explore(mc::W & w)
{
	const Files mods = {
		{ "m.fuel", "(def mv 5)\n(defn mf (x)\n (do\n  (+ x mv)))" }, { "Library/k.fuel", "(import \"m.fuel\")\n(defn kf (a b) (list a b))\n(define-macro-eval kmac (a) (list a))" },
		{ "bad.fuel", "(defn bf (x) x)\n(first (list))" }, { "empty.fuel", "" }, { "blank.fuel", " \n\t" }, { "rem.fuel", "; nothing\n" } };
	auto enter = [&](const Files & f) { static Files on; if (on != f || on.empty()) { dir.enter(); for (auto & x : f) scratch::put(x.first, x.second); on = f; } };
	auto session = [&](const std::vector<std::string> & c)
	{
		w.item([&]() { return diff::join(c, " | "); }, [&]() -> std::string
		{
			enter(mods);
			dbg::Model d; d.cmds = c; d.cmds.push_back("exit"); d.files = mods;
			bool judged = d.repl();
			std::string in; for (auto & x : d.cmds) in += x + "\n";
			w.steps(d.cmds.size());
			if (!judged) { w.tag("not judged: " + d.unspec); if (d.unspec == "too long") return ""; }
			fx::DbgOut o = fx::replLoop(in);
			w.traces(1); w.outcome(o.output); w.state(d.out);
			if (o.foreign || o.lispError) return "exception left the prompt: " + o.what;
			return judged ? dbg::compare(d.out, o.output, false) : "";
		});
	};
	const std::vector<std::string> defs = { "(defn zfa (a b) (+ a b))", "(defn zfa (c) c)", "(gdefn zfb () 1)", "(def zfc zfa)", "(def zfa 5)", "(delvar 'zfa)", "(define-macro-eval zmac (a) (list a))", "(define-macro-expand zexp (a) (list '+ a 1))", "(import \"m.fuel\")", "(import \"k\")", "(import \"bad.fuel\")", "(import \"empty.fuel\" \"nofile\")", "(import \"blank.fuel\" \"rem.fuel\")",
		"(evalstr \"(defn zfe (x) x)\")", "(def zs \"{0} {1} -->\")", "(def first 3)", "(gdef car zfa)", "(do (defn zfd (a) (defn zin () a)) (zfd 1))", "(def zl (list zfa 1))", "(first (list))", "(break)", "(define-macro-eval zmac () (nop))", "(def zlam (fn (q) q))" };
	const std::vector<std::string> asks = { "funcs", "macros", "modules", "g", "l", "doc zf", "searchdoc f", "code", "k", "builtins" };
	std::vector<std::string> all = defs; for (auto & a : asks) all.push_back(a);
	auto every = [&](std::vector<std::string> c) { for (auto & a : asks) c.push_back(a); session(c); };
	for (int k = 0; k <= (w.thorough() ? 3 : 2); ++k) { mc::Odo o(k, (int)all.size()); do { std::vector<std::string> c; for (int d : o.d) c.push_back(all[d]); every(c); } while (o.next()); }
	{ int n = (int)defs.size(); mc::Odo o(w.thorough() ? 4 : 3, n); do { std::vector<std::string> c; for (int d : o.d) c.push_back(defs[d]); for (auto & a : { "funcs", "macros", "modules", "g", "searchdoc z", "code" }) c.push_back(a); session(c); } while (o.next()); }
	// variables of every kind of value
	const std::vector<std::string> vals = { "(nop)", "NIL", "#t", "#f", "0", "-7", "1.5", "1e10", "\"\"", "\"a b\"", "\"{0}\"", "'sym", "(list)", "(list 1 \"x\" (nop))", "(make-dict)", "'(a (b))", "(fn (x) x)", "first", "(println 1)", "(quote +)", "\"a very long text with much more than forty characters in it\"", "(parse-integer \"x\")" };
	for (auto & x : vals) for (auto & y : vals) { session({ "(def zx " + x + ")", "(def zy " + y + ")", "g", "(setf zx " + y + ")", "l", "funcs", "(delvar 'zy)", "g", "code" }); session({ "(defn zfa (zp zq) (do (def zr zp) (vars) (list zp)))", "(zfa " + x + " " + y + ")", "g" }); }
	// every question after every other one, and their spellings
	const std::vector<std::string> ask2 = { "funcs", "macros", "modules", "g", "globals", "l", "locals", "doc zf", "doc zfa", "doc zf rest", "searchdoc f", "searchdoc zf x", "doc", "searchdoc", "code", "c", "k", "stack", "builtins", "help", "h", "about", "version", "ver", "list", "b 2", "clear 1", "up", "down", "doc nosuch", "searchdoc nosuch", "doc +", "searchdoc -" };
	for (auto & a : ask2) for (auto & b : ask2) for (int p = 0; p < 3; ++p) { std::vector<std::string> c; if (p) { c = { defs[0], "(list 1\t2)", "(import \"k\")" }; if (p == 2) c.push_back("(nosuch)"); } c.push_back(a); c.push_back(b); c.push_back("code"); session(c); }
	// every text behind doc and searchdoc
	const char * lex[] = { "(", ")", "\"", "'", ";", "zfa", "`", ",@", "1", "\\", "," };
	for (auto cmd : { "doc ", "searchdoc " }) for (int k = 1; k <= (w.thorough() ? 4 : 3); ++k) { mc::Odo o(k, 11); do { std::string s = cmd; for (int d : o.d) s += lex[d]; session({ defs[0], s, "(list zfa)", "doc zfa", "code" }); } while (o.next()); }
	// at every stop of a program
	const std::vector<std::string> progs = {
		"; first\n(defn zfa (x)\n (do\n  (def loc 1)\n  (list x loc)))\n; second\n(defn zfb (y) (zfa\n y))\n(println (zfb 1))\n(def zv 5)",
		"(import \"m.fuel\")\n(import\n \"k\")\n(println (mf 1))\n(kf 1\n 2)",
		"(define-macro-eval zmac (a)\n (list a))\n(zmac 3)\n(evalstr \"(defn zfe (x)\n x)\")\n(zfe 1)\n(def zfc\n zfe)",
		"(defn zfx (a)\n (fn (b)\n  (list a b)))\n(def zfy (zfx 1))\n(zfy\n 2)\n(delvar 'zfx)\n(list 7)",
		"(defn zfe (x)\n (first x))\n(zfe (list 1))\n(zfe\n (list))\n(println 1)" };
	const std::vector<std::string> ask3 = { "funcs", "macros", "modules", "doc zf", "searchdoc zf", "doc", "builtins", "help", "about", "ver", "g", "l", "(def zq 1)", "(defn zfq () 1)", "(list\t1)", "b 2", "b 6 #t", "d", "(evalstr \"(first (list))\")", "(evalstr \"(nosuch)\")", "(list (evalstr \"(defn zfq (x) x)\") 1)" };
	const std::map<std::string, std::string> docs = { { "zfa", "; first" }, { "zfb", "; second" }, { "zfx", ">not available<" } };
	for (auto & p : progs) for (int n = 0; n < (w.thorough() ? 40 : 30); ++n) for (auto & a : ask3) for (auto & b : ask3)
	{
		std::vector<std::string> c(n, "s"); c.push_back(a); c.push_back(b); c.push_back("c"); c.push_back("k"); c.push_back("s"); c.push_back("c"); c.push_back("s"); c.push_back("doc zf"); c.push_back("r");
		std::string mod = n % 2 ? "prog.fuel" : "command-line";
		w.item([&]() { return mc::q(p) + " as " + mod + ": " + diff::join(c, "; "); }, [&]() -> std::string
		{
			Files f = mods; if (mod != "command-line") f[mod] = p;
			enter(f);
			return dbg::session(w, p, mod, c, f, docs);
		});
	}
	// any number of definitions, names and values of every length
	for (int n = 1; n <= (w.thorough() ? 120 : 50); ++n) for (int kind = 0; kind < 4; ++kind)
	{
		std::vector<std::string> c; std::string nm(n, 'z'), val(n * 2, 'v');
		if (kind == 0) for (int i = 0; i < n; ++i) c.push_back(i % 3 ? "(defn zf" + std::to_string(i * 7 % n) + " (a b) (list a))" : "(def zv" + std::to_string(i) + " " + std::to_string(i) + ")");
		if (kind == 1) { c = { "(defn " + nm + " (" + nm + "a " + nm + "b) (list 1))", "(def " + nm + "q \"" + val + "\")", "(define-macro-eval " + nm + "m (a) (list a))", "(def " + nm + " " + nm + ")", "doc " + nm, "searchdoc " + nm.substr(n / 2) }; }
		if (kind == 2) { std::string p; for (int i = 0; i < n; ++i) p += " p" + std::to_string(i); c = { "(defn zfa (" + p + ") (do (vars) (list 1)))", "(zfa" + std::string(p).replace(0, 0, " 1") + ")", "(def zl (list '(" + p + ")))", "(def zq (fn (" + p + ") 1))", "doc zf" }; }
		if (kind == 3) for (int i = 0; i < n; ++i) c.push_back("(define-macro-eval zm" + std::to_string(i * 3 % n) + " (a) (list a))");
		for (auto & a : { "funcs", "macros", "g", "modules", "searchdoc z", "code" }) c.push_back(a);
		session(c);
	}
	// names with every character
	for (int ch = 33; ch < 256; ++ch) for (int pos = 0; pos < 3; ++pos) for (int n = 1; n <= 2; ++n)
	{
		if (ch == '"' || ch == '\'' || ch == '(' || ch == ')' || ch == ',' || ch == ';' || ch == '`' || ch == '\\' || ch == '@' || ch == 127 || (ch < 128 && isdigit(ch) && pos == 0) || (ch == '#' && n == 2 && pos == 0)) continue;
		std::string x(n, (char)ch), nm = pos == 0 ? x + "zf" : pos == 1 ? "z" + x + "f" : "zf" + x;
		if (pos == 0 && (ch == '-' || ch == '+' || ch == '.') && n == 1) continue;
		session({ "(def " + nm + " 5)", "(defn " + nm + "1 (" + nm + "2) (do (vars) (list " + nm + " " + nm + "2)))", "(" + nm + "1 7)", "(define-macro-eval " + nm + "3 (a) (list a))", "g", "funcs", "macros", "l", "searchdoc " + nm, "doc " + nm, "(delvar '" + nm + ")", "g", "code" });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P37",
		"all histories up to length 2 (thorough 3) of 22 definitions and 10 questions with all questions afterwards, all histories of 3 (4) definitions; all pairs of 33 questions in 3 sessions; every text of up to 3 (4) of 11 lexemes behind doc and searchdoc; variables of all pairs of 22 kinds of value, global and local; all pairs of 21 questions, definitions and breakpoints at each of the first 30 (40) stops of 5 programs; 1..50 (120) definitions, names, values and numbers of arguments of every length; ; names with every character",
		"reference prompt and debugger on the reference interpreter: the complete transcript; which functions are builtin from the list of the fresh environment",
		{ "the wording of help and documentation is not judged" }, explore });
}
