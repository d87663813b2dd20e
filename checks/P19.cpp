// An error names the place it comes from.
#include "mc.h"
#include "adapter.h"
#include "ref.h"
#include <algorithm>
static size_t count(const std::string & s, const std::string & what) { size_t n = 0, p = 0; while ((p = s.find(what, p)) != std::string::npos) { ++n; p += what.size(); } return n; }
static std::string compare(mc::W & w, const fx::Out & o, const std::string & text, const std::string & head, const std::string & failing, const std::string & mod)
{
	ref::Tok t;
	// the evaluator reads (do text): the first token of the text starts behind "(do "
	std::string code = "(do " + text + "\n)";
	std::vector<ref::Tok> toks = ref::scan(code, 4);
	bool found = false;
	for (auto & k : toks) if (k.t == ref::Tok::Sym && k.s == head && k.stop > (long)text.find(failing)) { t = k; found = true; break; }
	if (!found) return "harness: no " + head;
	w.traces(1); w.steps(toks.size());
	w.state(text); w.outcome(std::to_string(o.line) + "/" + std::to_string(o.start) + "/" + std::to_string(o.stop));
	if (o.kind != fx::Out::LispError) return "expected a located language error, observed " + o.full();
	if (o.line != t.line) return "expected line " + std::to_string(t.line) + ", observed " + std::to_string(o.line) + " (" + o.msg + ")";
	if (o.start != t.start || o.stop != t.stop) return "expected offsets " + std::to_string(t.start) + ".." + std::to_string(t.stop) + ", observed " + std::to_string(o.start) + ".." + std::to_string(o.stop) + " (" + o.msg + ")";
	if (o.module != mod) return "expected module " + mod + ", observed " + o.module;
	// the offsets are offsets into the text the user wrote
	size_t at = (size_t)o.stop >= head.size() ? (size_t)o.stop - head.size() : 0;
	if (text.compare(at, head.size(), head) != 0 && text.compare(at + 1, head.size(), head) != 0) return "offsets " + std::to_string(o.start) + ".." + std::to_string(o.stop) + " do not point at " + head;
	return "";
}
static void explore(mc::W & w)
{
	struct F { const char * code, * head; int nth; };
	// failing calls whose operands are no calls; the location is the head of the call
	const F fail[] = { { "(nosuch 1)", "nosuch", 0 }, { "(nosuch)", "nosuch", 0 }, { "( nosuch\n2)", "nosuch", 0 }, { "(setf\n nosuch 2)", "setf", 0 }, { "(upper-case)", "upper-case", 0 }, { "(slice \"a\")", "slice", 0 }, { "(sym 1 2 3)", "sym", 0 }, { "(dict-get 1 2)", "dict-get", 0 }, { "(dict-set 1 2\n3)", "dict-set", 0 }, { "(search \"a\")", "search", 0 }, { "(nth 1)", "nth", 0 }, { "(delvar)", "delvar", 0 }, { "(dict-keys \"a;b\")", "dict-keys", 0 }, { "(trim 'a 'b)", "trim", 0 }, { "(Math-Sin)", "Math-Sin", 0 }, { "(replace \"\\n\" \"a\")", "replace", 0 },
		{ "(slice\n (list\n 1))", "slice", 0 }, { "(setf nosuch\n (list 1))", "setf", 0 }, { "(search (+ \"a\" \"b\")\n)", "search", 0 }, { "(sym (do (nop)\n (list 1 2)) 1 2)", "sym", 0 }, { "(dict-get (make-dict)\n (list (list)) 2)", "dict-get", 0 }, { "(trim\n (str 1) (str\n 2))", "trim", 0 } };
	// what surrounds it
	const char * pre[] = { "", " ", "\n", "\n\n\n", "\t(nop)", "(nop)\n", "; comment\n", ";\n;\n", "(print \"two\nlines\")\n", "(print \"; no comment\") ", "(print \"\\n\")", "'(a\nb) ", "(def q 1) ; (\n\n", "(defn zz () (do\n (nop)))\n(zz)\n", "(zz2)\n" , "\r\n", "(nop 1.5) ", "(nop -3)\n" };
	const char * ctx[] = { "$", "(do $)", "(do\n (nop)\n $ (nop))", "(if #t\n$ 2)", "(if #f 1\n\n $)", "(list 1 $)", "(list\n 1\n $ (nop))", "(def v\n $)", "(while #t\n $)", "(and #t $)", "(or #f\n $)", "(eval\n (quote $))", "(+ 1\n 2 $)", "(map (fn (x)\n $) (quote (1)))", "((fn () $))", "(do (defn loc ()\n $)\n (loc))", "(do (defn loc (a)\n (if a\n $))\n (defn loc2 () (loc #t))\n (loc2))", "(do (def lam (fn (a b)\n (do (nop)\n $)))\n (lam 1 2))", "(apply\n (fn (x) $) '(1))", "(do (define-macro-eval mm (p)\n (list p\n $))\n (mm 3))", "(do (define-macro-eval mm (p)\n (do (nop)\n p (nop)))\n (mm\n $))", "(return $)", "(do (list (quote a) `b \"c\" 1.5)\n; x )\n $)", "(dict-set (make-dict)\n 1 $)", "(println\n\"a\n\" $)", "(reduce (fn (e a)\n $) '(1 2) 0)" };
	const char * mods[] = { "mod", "", "a/b c.fuel", "main" };
	int np = sizeof pre / sizeof *pre, nc = sizeof ctx / sizeof *ctx;
	auto put = [](const char * c, const std::string & x) { std::string s; for (; *c; ++c) if (*c == '$') s += x; else s += *c; return s; };
	auto one = [&](const std::vector<std::string> & before, const std::string & text, const std::string & head, const std::string & failing, const std::string & mod)
	{
		w.item([&]() { std::string s; for (auto & b : before) s += mc::q(b) + " ;; "; return s + mc::q(text) + " module " + mod; }, [&]() -> std::string
		{
			fx::Session s;
			for (auto & b : before) s.eval(b, "before");
			return compare(w, s.eval(text, mod), text, head, failing, mod);
		});
	};
	for (auto & f : fail) for (int p = 0; p < np; ++p) for (int c = 0; c < nc; ++c)
	{
		if (std::string(ctx[c]).find("((fn") == 0) continue;   // heads are symbols
		std::string text = std::string(pre[p]) + put(ctx[c], f.code);
		if (std::string(pre[p]) == "(zz2)\n") { one({ "(gdefn zz2 () (do\n\n\n (list 1)))" }, text, f.head, f.code, "mod"); continue; }
		one({}, text, f.head, f.code, mods[(p + c) % 4]);
		if (w.thorough() || (p % 3 == 0 && c % 4 == 0)) { one({ "(nosuch2 1)" }, text, f.head, f.code, "mod"); one({ "(def l (list 1))", "(first\n l)", "\n\n\n(do\n(list 1))" }, text, f.head, f.code, "mod"); }
		// two prefixes
		if (w.thorough() || (c % 5 == 0 && f.code == fail[0].code)) for (int q = 0; q < np; ++q) if (q != 14) one({}, std::string(pre[q]) + pre[p] + put(ctx[c], f.code), f.head, f.code, "mod");
		// two contexts
		if (w.thorough() || p < 3) for (int d = 0; d < nc; ++d)
		{
			std::string outer = ctx[d], inner = ctx[c];
			if (outer.find("((fn") == 0 || (outer.find("mm") != std::string::npos && inner.find("mm") != std::string::npos) || outer == inner) continue;
			if (outer.find("quote") != std::string::npos && inner.find("mm") != std::string::npos) continue;
			one({}, std::string(pre[p]) + put(outer.c_str(), put(inner.c_str(), f.code)), f.head, f.code, "mod");
		}
	}
	// the line of every number of lines and of every column
	for (int n = 0; n <= (w.thorough() ? 3000 : 400); ++n) for (auto & f : { fail[0], fail[4] })
	{
		one({}, std::string(n, '\n') + f.code, f.head, f.code, "mod");
		one({}, std::string(n, ' ') + f.code, f.head, f.code, "mod");
		std::string s; for (int i = 0; i < n; ++i) s += i % 3 == 0 ? "(nop)\n" : i % 3 == 1 ? "; c\n" : "(nop \"s\n\")\n";
		one({}, s + f.code, f.head, f.code, "mod");
		if (n <= 40) { std::string a, b; for (int i = 0; i < n; ++i) { a += "(do\n"; b += ")"; } one({}, a + f.code + b, f.head, f.code, "mod"); }
	}
	// brackets: the error names the module and a line of the text
	const char * tok[] = { "(", ")", "a", "\n", "\"x\n\"", "; )\n", "'b " };
	for (int n = 1; n <= (w.thorough() ? 7 : 5); ++n) { mc::Odo o(n, 7); do {
		std::string s; int depth = 0; bool bad = false; for (int d : o.d) { s += tok[d]; if (d == 0) depth++; if (d == 1) { if (depth-- == 0) { bad = true; break; } } }
		if (depth == 0 && !bad) continue;
		if (bad) depth = -1;
		w.item([&]() { return mc::q(s); }, [&, s]() -> std::string
		{
			fx::Session f; fx::Out o = f.eval(s, "mod");
			w.traces(1); w.state(s); w.outcome(std::to_string(o.line));
			if (o.kind != fx::Out::LispError) return "expected a located language error, observed " + o.full();
			int lines = 1 + (int)count(s, "\n") + 1;
			if (o.line < 1 || o.line > lines) return "line " + std::to_string(o.line) + " is no line of the text";
			if (o.module != "mod") return "expected module mod, observed " + o.module;
			// an additional bracket is named by its own line
			if (depth < 0)
			{
				int l = 1, dd = 0; for (auto & t : ref::scan(s, 0)) { if (t.t == ref::Tok::Open) dd++; if (t.t == ref::Tok::Close && dd-- == 0) { l = (int)t.line; break; } }
				if (o.line != l) return "additional bracket in line " + std::to_string(l) + ", observed " + std::to_string(o.line);
			}
			return "";
		}); } while (o.next()); }
	// the stack: every active function with the line of its current call, innermost last
	for (int n = 1; n <= (w.thorough() ? 12 : 8); ++n) for (int gap = 0; gap <= 3; ++gap) for (int kind = 0; kind < 6; ++kind)
	{
		std::string text; std::vector<int> line(n + 1); int cur = 1; auto named = [&](int i) { return kind < 3 || i % 2 == (kind == 4); };
		for (int i = n; i >= 1; --i)
		{
			std::string inner = i == n ? "(nosuch 1)" : "(fun" + std::to_string(i + 1) + " x)";
			// functions without a name of their own: the value of a variable
			bool lam = !named(i); if (kind == 5) lam = true;
			text += (lam ? "(def fun" + std::to_string(i) + " (fn (x)\n" : "(defn fun" + std::to_string(i) + " (x)\n"); cur++;
			if (kind == 1) { text += "(do\n"; cur++; } if (kind == 2) { text += "(if x\n"; cur++; }
			line[i] = cur; text += inner + (kind == 1 || kind == 2 ? ")" : "") + (lam ? "))\n" : ")\n") + std::string(gap, '\n'); cur += 1 + gap;
		}
		line[0] = cur; text += "(fun1 #t)";
		w.item([&]() { return mc::q(text); }, [&, text, line, kind]() -> std::string
		{
			fx::Session f; fx::Out o = f.eval(text, "mod");
			w.traces(1); w.state(text); w.steps(n); w.outcome(o.stack);
			if (o.kind != fx::Out::LispError || o.line != line[n]) return "expected an error in line " + std::to_string(line[n]) + ", observed " + o.full() + " line " + std::to_string(o.line);
			size_t pos = 0;
			for (int i = 0; i <= n; ++i)
			{
				std::string name = i ? (kind < 3 || (kind < 5 && i % 2 == (kind == 4)) ? "name=fun" + std::to_string(i) + " " : "name=  ") : "name=<main> ";
				size_t p = o.stack.find(name, pos);
				if (p == std::string::npos) return "the stack does not list " + name + " behind its callers: " + o.stack;
				size_t e = o.stack.find('\n', p); std::string row = o.stack.substr(p, e - p) + " ";
				if (row.find("lineno=" + std::to_string(line[i]) + " ") == std::string::npos) return "the stack lists another line than " + std::to_string(line[i]) + " for " + name + ": " + o.stack;
				if (row.find("module=mod") == std::string::npos) return "the stack lists another module: " + o.stack;
				pos = e;
			}
			if (count(o.stack, "name=") != (size_t)n + 1) return "the stack lists " + std::to_string(count(o.stack, "name=")) + " functions, expected " + std::to_string(n + 1);
			return "";
		});
	}
	// the text given to evalstr is named by the module that evaluates it and by itself
	for (auto mod : mods) for (auto & f : fail) for (int p = 0; p < 6; ++p) for (int kind = 0; kind < 3; ++kind)
	{
		if (std::string(f.code).find('"') != std::string::npos || (std::string(f.code).find('\n') != std::string::npos && kind == 2)) continue;
		std::string inner = std::string(p % 3, '\n') + (p / 3 ? "(do (nop)\n " : "") + f.code + (p / 3 ? ")" : "");
		std::string text = std::string(kind, '\n') + (kind == 0 ? "(evalstr \"" + inner + "\")" : kind == 1 ? "(defn h (s) (do\n (evalstr s)))\n(h \"" + inner + "\")" : "(def s \"" + inner + "\")\n(list 1 (evalstr s))");
		w.item([&]() { return mc::q(text) + " module " + mod; }, [&, mod]() -> std::string { fx::Session s; return compare(w, s.eval(text, mod), inner, f.head, f.code, "<evalstr>:" + std::string(mod) + ":" + inner); });
	}
	// also when a function of another module does so
	for (auto mod : mods) for (auto & f : fail) for (int kind = 0; kind < 5; ++kind) for (int by = 0; by < 4; ++by)
	{
		if (std::string(f.code).find('"') != std::string::npos || !*mod) continue;
		std::string inner = std::string(kind % 2 ? "(do\n " : "") + f.code + (kind % 2 ? ")" : "");
		std::string def = kind < 2 ? "(defn h (s)\n (evalstr s))" : kind < 4 ? "(def h (fn (s) (do\n (nop) (list 1 (evalstr s)))))" : "(defn h0 (s) (evalstr s))\n(defn h (s) (h0 s))";
		std::string call = by == 0 ? "(h \"" + inner + "\")" : by == 1 ? "(defn k (t) (h t))\n(k \"" + inner + "\")" : by == 2 ? "(list (first (map h (list \"" + inner + "\"))))" : "(evalstr \"(h s)\")";
		w.item([&]() { return mc::q(def) + " module " + mod + " called by " + mc::q(call); }, [&, mod, inner, def, call, by]() -> std::string
		{
			fx::Session s; s.eval(def + (by == 3 ? "\n(def s \"" + inner + "\")" : ""), mod);
			return compare(w, s.eval(call, "caller"), inner, f.head, f.code, "<evalstr>:" + std::string(mod) + ":" + inner);
		});
	}
	// functions of an earlier evaluation keep their own module and lines
	for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (auto & f : fail)
	{
		w.item([&]() { return std::string("two modules ") + f.code + " " + std::to_string(a) + " " + std::to_string(b); }, [&, a, b]() -> std::string
		{
			fx::Session s; std::string text = std::string(a, '\n') + "(defn g (x)\n (do (nop)\n" + f.code + "))";
			s.eval(text, "first"); fx::Out o = s.eval(std::string(b, '\n') + "(list 1)\n(g 1)", "second");
			return compare(w, o, text, f.head, f.code, "first");
		});
	}
	// longer chains of calls: through every kind of function and evaluation
	for (int n = 10; n <= (w.thorough() ? 100 : 40); n += w.thorough() ? 1 : 3) for (int kind = 0; kind < 4; ++kind) for (int k = 0; k <= n; k += n / 4)
	{
		std::string text; int cur = 1; std::vector<int> line(n + 1);
		for (int i = n; i >= 1; --i)
		{
			std::string inner = i == n ? "(nosuch 1)" : "(fun" + std::to_string(i + 1) + " (+ x 1))";
			text += "(defn fun" + std::to_string(i) + " (x)\n"; ++cur;
			if (i == k) { text += std::string(kind + 1, '\n'); cur += kind + 1; }
			if (kind == 1) { text += "(list x\n"; ++cur; }
			line[i] = cur; text += inner + (kind == 1 ? "))\n" : ")\n"); ++cur;
			if (kind == 2) { text += "; (fun" + std::to_string(i) + "\n"; ++cur; }
		}
		line[0] = cur; text += kind == 3 ? "(list (fun1 0))" : "(fun1 0)";
		w.item([&]() { return mc::q(text); }, [&, text, line, n]() -> std::string
		{
			fx::Session f; fx::Out o = f.eval(text, "mod");
			w.traces(1); w.state(text); w.steps(n); w.outcome(o.stack);
			if (o.kind != fx::Out::LispError || o.line != line[n]) return "expected an error in line " + std::to_string(line[n]) + ", observed " + o.full() + " line " + std::to_string(o.line);
			size_t pos = 0;
			for (int i = 0; i <= n; ++i)
			{
				std::string name = i ? "name=fun" + std::to_string(i) + " " : "name=<main> ";
				size_t p = o.stack.find(name, pos); if (p == std::string::npos) return "the stack does not list " + name + " behind its callers: " + o.stack;
				size_t e = o.stack.find('\n', p); std::string row = o.stack.substr(p, e - p) + " ";
				if (row.find("lineno=" + std::to_string(line[i]) + " ") == std::string::npos) return "the stack lists another line than " + std::to_string(line[i]) + " for " + name + ": " + row;
				pos = e;
			}
			return count(o.stack, "name=") == (size_t)n + 1 ? "" : "the stack lists " + std::to_string(count(o.stack, "name=")) + " functions";
		});
	}
	// names of modules of every length and every byte
	for (int n = 1; n <= (w.thorough() ? 300 : 120); ++n) one({}, "(do\n (nop)\n (nosuch))", "nosuch", "(nosuch)", std::string(n, 'm'));
	for (int c = 32; c < 256; ++c) if (c != 127) { one({}, "(do\n (nosuch))", "nosuch", "(nosuch)", std::string("a") + (char)c + "b"); one({}, "(defn f () (do\n (nosuch)))\n(f)", "nosuch", "(nosuch)", std::string(1, (char)c)); }
	// names of functions that do not exist, of every length
	for (int n = 1; n <= (w.thorough() ? 300 : 120); ++n) { std::string nm = "n" + std::string(n, 'o'); one({}, "(nop)\n(list 1 (" + nm + " 2))", nm, "(" + nm + " 2)", "mod"); one({}, "(setf\n " + nm + " 2)", "setf", "(setf\n " + nm + " 2)", "mod"); }
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P19",
		"22 failing calls x 18 preceding texts x 25 contexts (functions, lambdas, macros, loops, eval), in nested pairs of contexts, behind other evaluations, in 4 modules; every line and column 0..400 (thorough 3000); all unbalanced texts of up to 5 (7) of 7 tokens; call chains of 1..8 (12) functions with their stack listing; functions of one module failing in another one; texts given to evalstr, also by functions of another module; call chains of up to 40 (100) functions; module and function names of every length up to 120 (300) and every byte",
		"position of the head of the failing call as computed by the independent scanner: line, start, stop, module; the stack lists exactly the active functions with the lines of their calls",
		{ "errors of conversions and of positions in lists carry no or only partial positions and are not judged" }, explore });
}
