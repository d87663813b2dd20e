#pragma once
// Robustness: whatever is evaluated ends with a value or with a language error.
#include "mc.h"
#include "adapter.h"
#include "gram.h"
#include <set>
#include <unistd.h>
#include <stdlib.h>
#include <sys/stat.h>

static std::string judge(mc::W & w, const std::string & code)
{
	fx::Session s;
	s.setInput("line\n");
	fx::Out o = s.eval(code);
	w.traces(1); w.steps(1);
	w.tag(o.ok() ? "value" : "error");
	w.outcome(o.full());
	w.state(o.ok() ? "v" + o.type + o.repr : "e" + o.msg);
	if (o.kind == fx::Out::Foreign) return "exception that is no language error: " + o.msg;
	// the session has to stay usable
	fx::Out a = s.eval("(+ 40 2)");
	if (a.kind == fx::Out::Foreign) return "afterwards (+ 40 2) raises " + a.msg;
	return "";
}
static std::string judgeSave(mc::W & w, const std::string & code)
{
	fx::SaveOut o = fx::saveEval(code);
	w.traces(1);
	if (o.foreign) return "SaveEval let an exception escape: " + o.what;
	return "";
}
// level 0: memory safety quick, 1: quick, 2: thorough
static void robust(mc::W & w, int level)
{
	// every file access of the explored programs happens in an empty scratch directory
	static bool inScratch = false;
	if (!inScratch)
	{
		char t[] = "/tmp/p01.XXXXXX";
		const char * base = getenv("P01_SCRATCH");
		if (base) { if (chdir(base)) _exit(3); } else if (mkdtemp(t)) { if (chdir(t)) _exit(3); rmdir(t); }   // removed at once: the working directory is gone, relative files cannot be created
		inScratch = true;
	}
	auto one = [&](const std::string & s) { w.item([&]() { return s; }, [&]() { return judge(w, s); }); };
	static const std::set<std::string> skip = { "sleep", "break", "###macros###", "###modules###", "###tracebuffer###", "###traceon###" };
	std::vector<std::string> fns;
	for (auto & n : fx::builtinNames()) if (!skip.count(n)) fns.push_back(n);
	fns.push_back("f"); fns.push_back("undefinedfn"); fns.push_back("m");
	const char * pool[] = { "1", "-1", "0", "2147483647", "1.5", "\"\"", "\"ab\"", "#t", "#f", "NIL", "'s", "x", "(nop)", "(list)", "'(1 2)", "(list 1 \"a\" (list 2))", "(make-dict)", "f", "+", "(fn (a) a)", "'(+ 1 2)", "(if #f 1)", "()", "(quote (a . b))", "(fn)", "`(1 ,x)", "d", "unbound" };
	const int np = sizeof pool / sizeof *pool;
	const std::string pre = "(def x 3) (defn f (a b) (list a b)) (def d (make-dict)) (define-macro-eval m (a) (list a)) (dict-set d \"k\" 1) ";
	auto bad = [](const std::string & f, const std::string & a) { return (f == "while" && (a == "1" || a == "-1" || a == "1.5" || a == "#t" || a == "2147483647" || a == "x")) || (f == "File-WriteAllText"); };
	int arity = level == 2 ? 3 : 2;
	for (auto & f : fns)
		for (int n = 0; n <= arity; ++n)
		{
			mc::Odo o(n, np);
			do
			{
				std::string s = "(" + f;
				if (n && bad(f, pool[o.d[0]])) continue;
				if (level == 0 && n == 2 && (o.d[0] % 3 || o.d[1] % 4)) continue;
				for (int d : o.d) s += std::string(" ") + pool[d];
				one(pre + s + ")");
			} while (o.next());
		}
	// quick: arity 3 and 4 with a small pool
	{
		const char * p2[] = { "1", "\"ab\"", "'(1 2)", "NIL", "x", "(nop)" };
		for (auto & f : fns)
			for (int n = 3; n <= (level == 2 ? 5 : level == 1 ? 4 : 2); ++n)
			{
				if (f == "File-WriteAllText") continue;
				mc::Odo o(n, n == 3 ? 6 : 3);
				do
				{
					if (n && bad(f, p2[o.d[0]])) continue;
					std::string s = "(" + f;
					for (int d : o.d) s += std::string(" ") + p2[d];
					one(pre + s + ")");
				} while (o.next());
			}
	}
	// every index around the ends of containers and argument lists of every size
	{
		const char * con[] = { "(list)", "(list 1)", "'(1 2)", "(list 1 2 3)", "\"\"", "\"a\"", "\"ab\"", "\"abc\"", "l2", "s2", "d", "(args)" };
		for (auto & f : fns)
		{
			if (f == "while" || f == "File-WriteAllText") continue;
			for (int i = -2; i <= 4; ++i)
			{
				std::string n = std::to_string(i);
				for (int k = 0; k <= 4; ++k) { std::string as, fo; for (int a = 0; a < k; ++a) { as += " " + std::to_string(a); fo += " p" + std::to_string(a); } one(pre + "(defn w (" + fo + ") (" + f + " " + n + ")) (w" + as + ")"); if (level > 0) one(pre + "(defn w (p) (" + f + " " + n + ")) (w" + as + ")"); }
				for (auto c : con)
				{
					std::string cs = c, lp = pre + "(def l2 (list 1 2)) (def s2 \"ab\") (defn w (p q) (do ";
					one(lp + "(" + f + " " + n + " " + c + "))) (w 1 2)"); one(lp + "(" + f + " " + c + " " + n + "))) (w 1 2)");
					if (level > 0) { one(lp + "(setf (" + f + " " + n + " " + c + ") 9) (list l2 s2 (args)))) (w 1 2)"); one(lp + "(" + f + " 7 " + c + " " + n + "))) (w 1 2)"); }
					for (int j = -2; j <= 4; ++j) { if (level == 0 && (i + j) % 3) continue; one(lp + "(" + f + " " + c + " " + n + " " + std::to_string(j) + "))) (w 1 2)"); if (level > 1 || (cs[0] == '"' && level > 0)) one(lp + "(" + f + " \"b\" " + c + " " + n + " " + std::to_string(j) + "))) (w 1 2)"); }
				}
			}
		}
	}
	// the result of a call in the places of a program
	{
		const char * ctx[] = { "(if $ 1 2)", "(while (do (setf x (+ x 1)) (and (< x 6) $)) (nop))", "(def v $)", "(setf x $)", "(setf $ 1)", "(map $ '(1 2))", "(apply $ '(1))", "(eval $)", "(evalstr $)", "($ 1)", "(println $)", "(format \"{0}\" $)", "(list $ $)", "(== $ $)", "`(1 ,@$)", "`(1 ,$)", "(m $)", "(f $)", "(dict-set d $ $)", "(dict-get d $)", "(return $)", "(do $)", "(defn $ () 1)", "(defn g $ 1)", "(fn $ 1)", "(quote $)", "(first $)", "(nth $ '(1))", "(define-macro-eval $ () (list))", "(define-macro-expand q $ $)", "(reduce + $ $)", "(delvar $)", "(trace $)", "(str $)", "(sym $)", "(doc $)", "(searchdoc $)", "(import $)", "(+ $ \"a\")", "(push $ $)", "(arg $)" };
		for (auto c : ctx)
			for (auto & f : fns)
				for (int k = 0; k < (level == 2 ? np + 1 : level == 1 ? 7 : 1); ++k)
				{
					if (f == "while" || f == "File-WriteAllText") continue;
					std::string call = k == 0 ? "(" + f + ")" : "(" + f + " " + pool[(k * (level == 2 ? 1 : 4)) % np] + ")", s;
					for (const char * p = c; *p; ++p) { if (*p == '$') s += call; else s += *p; }
					one(pre + s);
				}
	}
	// containers, functions and macros that are changed while they are used
	{
		const char * use[] = { "(map (fn (e) (do $)) l)", "(reduce (fn (e acc) (do $)) l 0)", "(apply (fn (a b) (do $)) l)", "(do (def i 0) (while (< i 4) (do (setf i (+ i 1)) $)))", "(setf (nth (do $ 1) l) 9)", "(setf (nth 1 l) (do $))",
			"(list (do $) l (do $))", "(push (do $) l)", "(append l (list (do $)) l)", "(dict-set d (do $ \"k\") (do $))", "(list (h 1) (h 2))", "(if (do $ #t) l)", "(eval l)", "(first (do $ l))", "`(1 ,(do $) ,@l)", "(m (do $))", "(evalstr \"$\")", "(setf (first (do $ l)) 7)", "(cons (do $) l)", "(== l (do $ l))", "(println l (do $) l)", "(and (do $ #t) (do $ #f))" };
		const char * mut[] = { "(pop l)", "(push 7 l)", "(push l l)", "(pop l 1)", "(setf l (list))", "(setf l 5)", "(def l (list 1))", "(gdef l NIL)", "(delvar 'l)", "(dict-clear d)", "(dict-set d d d)", "(dict-remove d \"k\")", "(defn h (y) 0)", "(gdefn h (y) (pop l))", "(define-macro-eval m (y) (list y))", "(delvar 'h)", "(setf h +)", "(setf (first l) l)", "(setf (last l) h)", "(return 5)", "(nth 9 l)", "(gdef list +)", "(args)", "(setf e 1)", "(do (pop l) (pop l) (pop l))" };
		for (auto u : use)
			for (auto a : mut)
				for (auto b : mut)
				{
					if (level == 0 && a != b && b != mut[0] && b != mut[4]) continue;
					std::string body = std::string(a) + (a == b ? "" : std::string(" ") + b), s;
					for (const char * p = u; *p; ++p)
					{
						if (*p != '$') { s += *p; continue; }
						if (p > u && p[-1] == '"') { for (char ch : body) { if (ch == '"') s += '\\'; s += ch; } }
						else s += body;
					}
					// cyclic containers are not printed
					if (body.find("l l") != std::string::npos || body.find("(first l) l") != std::string::npos || body.find("d d d") != std::string::npos) { if (s.find("println") != std::string::npos || s.find("evalstr") != std::string::npos || s.find("(eval l)") != std::string::npos || s.find("==") != std::string::npos || body.find("gdef list") != std::string::npos) continue; s += " (nop)"; }
					one(pre + "(def l (list 1 2 3)) (defn h (e) (do " + body + " (list e l))) " + s);
				}
	}
	// token sequences
	{
		const char * tok[] = { "(", ")", "'", "`", ",", ",@", "x", "1", "\"s\"", "NIL", ";c\n", "f", "list", "def" };
		for (int n = 1; n <= 3 + level - (level == 0); ++n)
		{
			mc::Odo o(n, 14);
			do { std::string s; for (int d : o.d) { s += tok[d]; s += ' '; } one(s); if (n <= 3) w.item([&]() { return "SaveEval " + s; }, [&]() { return judgeSave(w, s); }); } while (o.next());
		}
		const char * t2[] = { "(", ")", "'", "f", "1", ",@" };
		for (int n = 5; n <= (level == 2 ? 8 : level == 1 ? 6 : 4); ++n)
		{
			mc::Odo o(n, 6);
			do { std::string s; for (int d : o.d) { s += t2[d]; s += ' '; } one(s); } while (o.next());
		}
	}
	// characters
	{
		const std::string abc = "()'\"\\;\n a1`,@.-";
		for (int n = 1; n <= (level == 2 ? 5 : level == 1 ? 3 : 2); ++n)
		{
			mc::Odo o(n, (int)abc.size());
			do { std::string s; for (int d : o.d) s += abc[d]; one(s); } while (o.next());
		}
		for (int a = 1; a < 256; ++a) for (int b = 0; b < 3; ++b) one(std::string(b == 0 ? "" : b == 1 ? "(" : "(println \"") + (char)a + (b == 2 ? "\")" : b == 1 ? ")" : ""));
	}
}
