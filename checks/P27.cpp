// Documentation of functions.
#include "diff.h"
#include "scratch.h"
#include <algorithm>
#include <set>
static scratch::Dir dir;
static const std::string rule = "-------------------------------------------------\n\n";
static std::string entry(const std::string & sig, const std::string & doc, bool special = false)
{
	size_t sp = sig.find(' ');
	std::string name = sig.empty() ? "???" : sp == std::string::npos ? sig.substr(1, sig.size() - 2) : sig.substr(1, sp - 1);
	return name + (special ? " [special form]" : "") + "\nSyntax: " + sig + "\n" + (doc.empty() ? ">not available<" : doc) + "\n";
}
struct Entry { std::string name, syntax, doc; bool special; };
// the entries of a text written by doc: name, syntax and documentation (layout of blank lines aside)
static std::vector<Entry> entries(const std::string & t)
{
	std::vector<Entry> r; size_t p = 0;
	for (;;)
	{
		size_t a = t.find(rule, p); if (a == std::string::npos) break;
		size_t b = t.find(rule, a + rule.size());
		std::string s = t.substr(a + rule.size(), b == std::string::npos ? b : b - a - rule.size());
		std::vector<std::string> l; size_t q = 0;
		while (q <= s.size()) { size_t e = s.find('\n', q); if (e == std::string::npos) e = s.size(); std::string x = s.substr(q, e - q); if (!x.empty()) l.push_back(x); q = e + 1; }
		Entry e; e.special = false;
		if (l.size() > 0) { e.name = l[0]; size_t k = e.name.find(" [special form]"); if (k != std::string::npos) { e.special = true; e.name = e.name.substr(0, k); } while (!e.name.empty() && e.name.back() == ' ') e.name.pop_back(); }
		if (l.size() > 1) e.syntax = l[1].compare(0, 8, "Syntax: ") == 0 ? l[1].substr(8) : "?" + l[1];
		for (size_t i = 2; i < l.size(); ++i) e.doc += (i > 2 ? "\n" : "") + l[i];
		r.push_back(e);
		if (b == std::string::npos) break;
		p = b;
	}
	return r;
}
static std::string shown(const std::vector<Entry> & v) { std::string r; for (auto & e : v) r += e.name + (e.special ? " [special form]" : "") + "\nSyntax: " + e.syntax + "\n" + e.doc + "\n"; return r; }
static void explore(mc::W & w)
{
	// ---- user defined functions; the documentation is the comment directly before the definition
	typedef std::map<std::string, std::pair<std::string, std::string>> Docs;     // name -> signature, comment
	struct Op { std::string text; std::function<void(Docs &)> effect; };
	std::vector<Op> ops;
	auto put = [](const std::string & n, const std::string & sig, const std::string & doc) { return [=](Docs & d) { d[n] = { sig, doc }; }; };
	ops.push_back({ "(defn zfa (a b) (+ a b))", put("zfa", "(zfa a b)", "") });
	ops.push_back({ "; adds\n(defn zfa (a b) (+ a b))", put("zfa", "(zfa a b)", "; adds") });
	ops.push_back({ ";; first line\n; second line\n\n   (defn zfb () (list 1))", put("zfb", "(zfb)", "; second line") });
	ops.push_back({ "; {0} \"quoted\" (brackets) 'q\n(defn zfb (x) (list 1))", put("zfb", "(zfb x)", "; {0} \"quoted\" (brackets) 'q") });
	ops.push_back({ "(nop) ; trailing\n(defn zga (a)\n  (list a))", put("zga", "(zga a)", "; trailing") });
	ops.push_back({ "; far away\n(nop)\n(defn zga (b)\n  (list b))", put("zga", "(zga b)", "") });
	ops.push_back({ "; global\n(gdefn zgb (a b c d) (list a))", put("zgb", "(zgb a b c d)", "; global") });
	ops.push_back({ "(do ; inner\n (defn zfa (i) (list i)))", put("zfa", "(zfa i)", "; inner") });
	ops.push_back({ "(if #t ; chosen\n (defn zfb (c) (list c)))", put("zfb", "(zfb c)", "; chosen") });
	ops.push_back({ "(evalstr \"; from a string\\n(defn zga (s) (list s))\")", put("zga", "(zga s)", "; from a string") });
	ops.push_back({ "(evalstr \"(defn zga (s t) (list s))\")", put("zga", "(zga s t)", "") });
	ops.push_back({ "; one\n(defn zfa (o) (list o)) (defn zfb (p) (list p))", [](Docs & d) { d["zfa"] = { "(zfa o)", "; one" }; d["zfb"] = { "(zfb p)", "" }; } });
	ops.push_back({ "; one\n(defn zfa (o) (list o)) ; two\n(defn zfb (p) (list p))", [](Docs & d) { d["zfa"] = { "(zfa o)", "; one" }; d["zfb"] = { "(zfb p)", "; two" }; } });
	ops.push_back({ "(println \"; no comment\")\n(defn zgb (q) (list q))", put("zgb", "(zgb q)", "") });
	ops.push_back({ "; of a value\n(def zfa (fn (a) (list a)))", put("zfa", "", "") });
	ops.push_back({ "(def zalias zfa)", [](Docs & d) { if (d.count("zfa")) d["zalias"] = d["zfa"]; else d.erase("zalias"); } });
	ops.push_back({ "(delvar 'zfa)", [](Docs & d) { d.erase("zfa"); } });
	ops.push_back({ "(def zfb 5)", [](Docs & d) { d.erase("zfb"); } });
	ops.push_back({ "; of a macro\n(define-macro-eval zmac (a) (list a))", [](Docs &) {} });
	ops.push_back({ "; not reached\n(first (list)) (defn zgb (e) (list e))", [](Docs &) {} });
	ops.push_back({ "; outer\n(defn zout () (do\n; of the local one\n(defn zloc (l) (list l)) (zloc 1))) (zout)", put("zout", "(zout)", "; outer") });
	ops.push_back({ "(import \"zm\")", [](Docs & d) { d["\x7fzma"] = { "(zma m)", "; in a module" }; d["\x7fzmb"] = { "(zmb)", "" }; } });
	const std::vector<std::string> queries = { "z", "zf", "zfa", "zfb", "zg", "zga", "zgb", "zalias", "zm", "zma", "zloc", "zout", "zfaa", "a" };
	auto check = [&](fx::Session & s, const Docs & d, const std::string & after) -> std::string
	{
		auto ask = [&](const std::string & code, std::function<bool(const std::string &)> match, const std::vector<std::string> & args) -> std::string
		{
			std::string want;
			(void)args;
			for (auto & e : d) if (e.first[0] != '\x7f' && match(e.first)) want += entry(e.second.first, e.second.second);
			for (auto & e : d) if (e.first[0] == '\x7f' && match(e.first.substr(1))) want += entry(e.second.first, e.second.second);
			fx::Out o = s.eval(code); w.traces(1);
			s.takeOutput();
			if (!o.ok()) return code + " fails: " + o.full() + " after " + after;
			std::string got = shown(entries(o.text));
			w.outcome(got);
			return got == want ? "" : code + " shows " + mc::q(got) + ", expected " + mc::q(want) + " after " + after;
		};
		for (auto & q : queries)
		{
			std::string bad;
			if (q != "a") bad = ask("(doc \"" + q + "\")", [&](const std::string & n) { return n.compare(0, q.size(), q) == 0; }, { q });
			if (bad.empty() && q[0] == 'z') bad = ask("(searchdoc \"" + q + "\")", [&](const std::string & n) { return n.find(q) != std::string::npos; }, { q });
			if (!bad.empty()) return bad;
		}
		return "";
	};
	auto hist = [&](const std::vector<int> & h, bool together)
	{
		w.item([&, h, together]() { std::string s = together ? "one program: " : ""; for (int i : h) s += ops[i].text + " ;;; "; return s; }, [&]() -> std::string
		{
			static bool ready = false; if (!ready) { dir.enter(); scratch::put("Library/zm.fuel", "(do\n; in a module\n(defn zma (m) (list m))\n(defn zmb () (zma 1))\n(def zmv 5))"); ready = true; }
			Docs d; fx::Session s; std::string all;
			for (int i : h)
			{
				all += ops[i].text + "\n";
				if (!together) { s.eval(ops[i].text); ops[i].effect(d); w.steps(1); }
				else ops[i].effect(d);
			}
			if (together) { s.eval(all); w.steps(1); }
			std::string key; for (auto & e : d) key += e.first + e.second.first + e.second.second + ";"; w.state(key);
			return check(s, d, all);
		});
	};
	int n = (int)ops.size();
	for (int k = 0; k <= (w.thorough() ? 4 : 3); ++k)
	{
		mc::Odo o(k, n);
		do { hist(o.d, false); bool fails = false; for (int i : o.d) if (ops[i].text.find("not reached") != std::string::npos || ops[i].text == "(def zalias zfa)") fails = true; if (k > 1 && !fails) hist(o.d, true); } while (o.next());
	}
	// formal arguments: every number
	for (int k = 0; k <= 20; ++k)
	{
		std::string f; for (int i = 0; i < k; ++i) f += (i ? " p" : "p") + std::to_string(i);
		std::string sig = "(zz" + std::string(k ? " " : "") + f + ")";
		for (auto def : { "defn", "gdefn" }) w.item([&]() { return std::string(def) + " " + sig; }, [&]() -> std::string
		{
			fx::Session s; s.eval(std::string("; c\n(") + def + " zz (" + f + ") (list 1))"); w.steps(1); w.traces(1);
			std::string got = shown(entries(s.eval("(doc 'zz)").text)); w.state(got);
			return got == entry(sig, "; c") ? "" : "shows " + mc::q(got);
		});
	}
	// names and comments of every shape: every printable character at the start, inside and at the end of a name, names and comments of every length
	auto shape = [&](const std::string & name, const std::string & comment)
	{
		w.item([&, name, comment]() { return "; " + comment + " defn " + name; }, [&, name, comment]() -> std::string
		{
			for (auto def : { "defn", "gdefn" }) for (auto form : { "", "(do " })
			{
				fx::Session s; std::string close = *form ? ")" : "";
				fx::Out d = s.eval(std::string(form) + "\n; " + comment + "\n(" + def + " " + name + " (a b) (+ a b))" + close); w.steps(1);
				if (!d.ok()) return "the definition fails: " + d.full();
				for (auto q : { "(doc ", "(searchdoc " })
				{
					fx::Out o = s.eval(q + ("\"" + name + "\")")); w.traces(1);
					std::string got; for (auto & e : entries(o.text)) if (e.name == name) got += shown({ e });
					w.state(name + comment);
					if (got != entry("(" + name + " a b)", "; " + comment)) return std::string(q) + "…) shows " + mc::q(got) + " in " + mc::q(o.text.substr(0, 400));
				}
			}
			return "";
		});
	};
	for (int c = 33; c < 127; ++c)
	{
		if (std::string("()\"';`,\\").find((char)c) != std::string::npos) continue;
		std::string x(1, (char)c);
		if (!isdigit(c) && x != "-" && x != "+" && x != "." && x != "#") { shape(x + "zz", "c"); if (c != '_') shape(x + x + "zz", "c"); }
		shape("z" + x + "z", "c"); shape("zz" + x, "c"); shape("zzz", x + "c"); shape("zzz", "c" + x + "d"); shape("zzz", "c" + x);
	}
	for (auto c : { "c ", "c   ", "c\t", " c ", "c c  c", "", " ", "\t", ";", "; ;", "c;" }) shape("zz", c);
	for (int k = 1; k <= (w.thorough() ? 300 : 100); ++k) { shape(std::string(k, 'z'), "c"); shape("zz", std::string(k, 'c')); std::string e; for (int i = 0; i < k; ++i) e += i % 5 ? 'c' : ' '; shape("zz", "x" + e + "x"); }
	// number of definitions: each has its own entry, in the order of the names
	for (int k = 1; k <= (w.thorough() ? 120 : 50); ++k) w.item([&]() { return std::to_string(k) + " definitions"; }, [&]() -> std::string
	{
		fx::Session s; std::vector<std::pair<std::string, std::string>> defs; std::string code, want;
		for (int i = 0; i < k; ++i) { std::string nm = "zz" + std::to_string(i * 7 % k); code += "; doc of " + nm + "\n(defn " + nm + " (a) (list a))\n"; defs.push_back({ nm, entry("(" + nm + " a)", "; doc of " + nm) }); }
		s.eval(code); w.steps(1); w.traces(2); w.state(code);
		std::map<std::string, std::string> m(defs.begin(), defs.end()); for (auto & e : m) want += e.second;
		for (auto q : { "(doc \"zz\")", "(searchdoc \"z\")" }) { std::string got = shown(entries(s.eval(q).text)); if (got.find(want) == std::string::npos) return std::string(q) + " shows " + mc::q(got); }
		return "";
	});
	// ---- builtin functions: every one has an entry of its own name, found by every prefix and part of its name
	std::vector<std::string> all = fx::builtinNames(), names;
	for (auto & b : all) if (b[0] != '#' && b[0] != '_') names.push_back(b);
	std::sort(names.begin(), names.end());
	auto lit = [](const std::string & s) { return "\"" + s + "\""; };
	std::set<std::string> parts;
	for (auto & b : names) for (size_t i = 0; i < b.size(); ++i) for (size_t l = 1; i + l <= b.size(); ++l) if (l <= 3 || i == 0) parts.insert(b.substr(i, l));
	ref::Interp model;
	auto special = [&](const std::string & x) { auto i = model.global->vars.find(x); return i != model.global->vars.end() && i->second->f && i->second->f->special; };
	for (auto & p : parts) for (int how = 0; how < 2; ++how)
	{
		std::string code = std::string(how ? "(searchdoc " : "(doc ") + lit(p) + ")";
		w.item([&]() { return code; }, [&]() -> std::string
		{
			fx::Session s; fx::Out o = s.eval(code); w.steps(1); w.traces(1);
			if (!o.ok()) return "fails: " + o.full();
			std::vector<std::string> want, got;
			for (auto & b : names) if (how ? b.find(p) != std::string::npos : b.compare(0, p.size(), p) == 0) want.push_back(b);
			for (auto & e : entries(o.text)) if (e.name.compare(0, 7, "unquote") != 0) got.push_back(e.name);
			w.state(code + diff::join(got, " "));
			return got == want ? "" : "shows the entries " + diff::join(got, " ") + ", expected " + diff::join(want, " ");
		});
	}
	for (auto & b : names) w.item([&]() { return "entry of " + b; }, [&]() -> std::string
	{
		fx::Session s; fx::Out o = s.eval("(doc " + lit(b) + ")"); w.steps(1); w.traces(1); w.state(b);
		for (auto & e : entries(o.text)) if (e.name == b)
		{
			if (e.syntax.compare(0, b.size() + 1, "(" + b) != 0 || (e.syntax[b.size() + 1] != ' ' && e.syntax[b.size() + 1] != ')') || e.syntax.back() != ')') return "syntax is " + e.syntax;
			if (e.doc.empty() || e.doc == ">not available<") return "is not documented";
			if (e.special != special(b) && model.global->vars.count(b) && b.compare(0, 13, "define-macro-") != 0) return std::string("is ") + (e.special ? "" : "not ") + "shown as special form";
			return "";
		}
		return "has no entry";
	});
	// ---- several names, all builtins, html and help; user functions do not show up among the builtins
	for (auto & a : names) for (auto b : { "nth", "zf", "Math-S", "no-such-name" }) w.item([&]() { return a + " and " + b; }, [&]() -> std::string
	{
		fx::Session s; s.eval("; c\n(defn zf (a) (list a))"); w.steps(1); w.traces(3); w.state(a + b);
		std::string x = s.eval("(doc " + lit(a) + ")").text, y = s.eval("(doc " + lit(b) + ")").text, z = s.eval("(doc " + lit(a) + " " + lit(b) + ")").text;
		if (shown(entries(x)) + shown(entries(y)) != shown(entries(z))) return "the documentation of two names is not the one of the first followed by the one of the second";
		return "";
	});
	for (auto pre : { "(nop)", "; c\n(defn zf (a) (list a))", "(def first 1)", "(import \"zm\")", "(do (doc 'nth) (htmldoc))" }) w.item([&]() { return std::string("all: ") + pre; }, [&]() -> std::string
	{
		dir.enter(); scratch::put("Library/zm.fuel", "; in a module\n(defn zma (m) (list m))");
		fx::Session s; s.eval(pre); s.takeOutput(); w.steps(3); w.traces(3); w.state(pre);
		std::vector<std::string> want; for (auto & b : names) if (!(std::string(pre) == "(def first 1)" && b == "first")) want.push_back(b);
		std::vector<std::string> html, help;
		std::string h = s.eval("(htmldoc)").text;
		for (size_t p = 0; (p = h.find("Syntax: (", p)) != std::string::npos; ++p) { size_t e = p + 9; while (e < h.size() && h[e] != ' ' && h[e] != ')') ++e; std::string x = h.substr(p + 9, e - p - 9); if (x.compare(0, 7, "unquote") != 0) html.push_back(x); }
		std::vector<std::string> hs = html; std::sort(hs.begin(), hs.end());
		if (hs != want) return "htmldoc shows " + diff::join(hs, " ") + ", expected " + diff::join(want, " ");
		if (h.find("<html>") != 0 || h.find("</html>") == std::string::npos) return "htmldoc is not a document";
		fx::Out o = s.eval("(help)"); std::string out = s.takeOutput(), t = o.text;
		if (out.find(t) == std::string::npos) return "help does not write what it returns";
		std::set<std::string> have; for (size_t q = 0; q < t.size();) { size_t e = t.find('\n', q); if (e == std::string::npos) e = t.size(); if (!have.insert(t.substr(q, e - q)).second) return "help shows " + t.substr(q, e - q) + " twice"; q = e + 1; }
		for (auto & b : names) if (!have.count(b)) return "help does not show " + b;
		// all builtins
		std::vector<std::string> shownNames; for (auto & e : entries(s.eval("(doc)").text)) if (e.name.compare(0, 7, "unquote") != 0) shownNames.push_back(e.name);
		std::sort(shownNames.begin(), shownNames.end());
		if (shownNames != want) return "doc shows the entries " + diff::join(shownNames, " ") + ", expected " + diff::join(want, " ");
		return "";
	});
	// functions of modules, asked for from every place
	for (auto word : { "doc", "searchdoc" }) for (auto nm : { "zka", "zkb", "zk", "zkx" }) for (int from = 0; from < 5; ++from) for (int order = 0; order < 2; ++order)
		w.item([=]() { return std::string(word) + " " + nm + " from place " + std::to_string(from) + ", order " + std::to_string(order); }, [=, &dir, &w]() -> std::string
		{
			dir.enter();
			std::string ask = std::string("(") + word + " \"" + nm + "\")";
			scratch::put("Library/zk1.fuel", "; of the first\n(defn zka (m) (list m))\n(defn ask1 () " + ask + ")");
			scratch::put("Library/zk2.fuel", "; of the second\n(defn zkb (m n) (list m))\n(defn ask2 () " + ask + ")");
			fx::Session s; s.eval(order ? "(import \"zk2\" \"zk1\")" : "(import \"zk1\") (import \"zk2\")");
			s.eval("(defn ask0 () " + ask + ")");
			std::string q = nm, a = entry("(zka m)", "; of the first"), b = entry("(zkb m n)", "; of the second");
			std::string want = q == "zkx" ? "" : q == "zka" ? a : q == "zkb" ? b : a + b;
			std::string code = from == 0 ? ask : from == 1 ? "(ask0)" : from == 2 ? "(ask1)" : from == 3 ? "(ask2)" : "(evalstr \"(ask1)\")";
			fx::Out o = s.eval(code); w.traces(1); w.steps(3);
			if (!o.ok()) return code + " fails: " + o.full();
			std::string got = shown(entries(o.text)); w.outcome(got);
			return got == want ? "" : code + " shows " + mc::q(got) + ", expected " + mc::q(want);
		});
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P27",
		"all histories of up to 3 (thorough 4) of 22 definitions with comments in every position, evaluated one by one and as one program, then 27 queries by name, prefix and part; 0..20 formal arguments; names and comments with every printable character at every kind of position and of every length up to 100 (300); 1..50 (120) definitions; all prefixes and all parts up to length 3 of the names of the builtin functions, each entry, all pairs with 4 names, doc, htmldoc and help in 5 sessions; functions of two modules asked for from the script, its functions and the functions of both modules",
		"the documentation known by construction of the definitions; the list of builtin functions and which of them are special forms from the reference interpreter",
		{ "the wording of the documentation of builtin functions is not judged; queries inside of functions (which see the functions of that scope only) are not judged" }, explore });
}
