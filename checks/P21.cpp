// Modules.
#include "diff.h"
#include "scratch.h"
static scratch::Dir dir;
typedef std::map<std::string, std::string> Files;
static void setup(ref::Interp & m, const Files & files)
{
	dir.enter();
	for (auto & f : files) { scratch::put(f.first, f.second); m.files[f.first] = f.second; for (size_t p = 0; (p = f.first.find('/', p)) != std::string::npos; ++p) m.dirs.push_back(f.first.substr(0, p)); }
}
static std::string same(const ref::Interp & m)
{
	Files have; scratch::tree(".", have);
	if (have == m.files) return "";
	for (auto & f : have) { auto it = m.files.find(f.first); if (it == m.files.end()) return "unexpected file " + f.first; if (it->second != f.second) return "content of " + f.first + ": " + mc::q(f.second); }
	return "file is missing";
}
static void explore(mc::W & w)
{
	unsetenv("FUELPATH");
	auto hist = [&](const Files & files, const std::vector<std::string> & h)
	{
		w.item([&]() { return diff::join(h, " ;; "); }, [&]() -> std::string
		{
			diff::Pair p; setup(p.m, files);
			diff::Opt o;
			for (auto & c : h) { bool judged; std::string bad = p.step(w, c, o, judged); if (!bad.empty()) return bad; if (!judged) return ""; }
			return same(p.m);
		});
	};
	const Files files = {
		{ "a.fuel", "(def va 1) (def la (list 1))\n(defn fa (x) (+ x va))\n(defn inca () (setf va (+ va 1)))\n(defn geta () va)" },
		{ "b.fuel", "; module b\n(import \"a.fuel\")\n(def vb 2)\n(defn fb (x) (list (fa (* x vb)) x))" },
		{ "c.fuel", "(gdef gc 3) (gdefn fc (q) (list q gc x))" },
		{ "m.fuel", "(define-macro-eval mm (p) (list p p)) (defn um () (mm (do (setf x (+ x 1)) (first (list x)))))" },
		{ "e.fuel", "(def ve 1) (defn fe () ve) (print \"E\") (first (list)) (def ve2 2)" },
		{ "s.fuel", "(def vs 1) (print \"S\" (" },
		{ "r.fuel", "(def vr 1) (print \"R1\") (return 5) (print \"R2\") (def vr2 2)" },
		{ "p.fuel", "(print \"P\" x) (setf x (+ x 10)) (def x 77) (print x) (defn fp () x)" },
		{ "z.fuel", "" }, { "w.fuel", " \n\t; only\n" }, { "y.fuel", "(nop)" },
		{ "n.fuel", "(defn len2 (q) 42) (defn g () 1) (defn self () (list (g) (len2 1)))" },
		{ "Library/std.fuel", "(def where \"Library\")" } };
	std::vector<std::string> ops;
	for (auto & f : files) if (f.first.find('/') == std::string::npos) ops.push_back("(import \"" + f.first + "\")");
	for (auto o : { "(import std)", "(import \"none\")", "(import \"a.fuel\" \"c.fuel\" \"none\" \"y.fuel\")", "(do (defn imp (f) (do (def loc 1) (import f) (list loc))) (imp \"a.fuel\"))", "(evalstr \"(import \\\"a.fuel\\\")\")", "(list (import \"c.fuel\") x)", "(list va la)", "(fa 1)", "(inca)", "(list (geta) va)", "(setf va 9)", "(def va 50)", "(defn fa (x) (list \"mine\" x))", "(fb 4)", "(fc 5)", "(mm (do (print \"m\") (first (list 1))))", "(um)", "(list ve)", "(fe)", "(fp)", "(list x)", "(push 8 la)", "(setf x 20)", "(gdef va 60)", "(self)", "(defn g () 2)", "(do (defn loc (va) (list va (geta))) (loc 7))", "(File-WriteAllText \"a.fuel\" \"(def va 100) (defn geta () (list va))\")", "(list where)", "(setf (first la) 5)", "(delvar 'va)", "(map fa '(1 2 3))", "(eval '(fa 2))", "(do (def h fa) (h 3))" }) ops.push_back(o);
	const std::string pre = "(def x 1)";
	int n = (int)ops.size();
	for (int k = 1; k <= (w.thorough() ? 4 : 3); ++k)
	{
		if (k == 4) { mc::Odo o(4, n); do { if (o.d[0] > 11) continue; hist(files, { pre, ops[o.d[0]], ops[o.d[1]], ops[o.d[2]], ops[o.d[3]] }); } while (o.next()); continue; }
		mc::Odo o(k, n);
		do { std::vector<std::string> h = { pre }; for (int d : o.d) h.push_back(ops[d]); hist(files, h); } while (o.next());
	}
	// longer histories of one module: its state, its file and repeated imports
	const std::vector<std::string> one = { "(import \"a.fuel\")", "(File-WriteAllText \"a.fuel\" \"(def va 100) (defn geta () (list va))\")", "(inca)", "(list (geta) va)", "(setf va 9)", "(list va la)", "(fa 1)", "(push 8 la)", "(import \"b.fuel\")", "(fb 4)", "(File-WriteAllText \"a.fuel\" \"\")", "(do (defn imp (f) (do (def loc 1) (import f) (list loc))) (imp \"a.fuel\"))", "(def geta (fn () 0))" };
	{ mc::Odo o(w.thorough() ? 5 : 4, (int)one.size()); do { std::vector<std::string> h = { pre, one[0] }; for (int d : o.d) h.push_back(one[d]); hist(files, h); } while (o.next()); }
	// search order: all subsets of the places a module can be in
	struct Place { const char * path; };
	const char * names[] = { "mod", "mod.fuel", "sub/mod", "sub/mod.fuel", "sub\\mod", "./mod.fuel", "mod.fuel.fuel", "Mod", "mod.txt", "a.b", "x.fuels/n", "a.fuel.b", ".fuel", "d.fuel/m", "xfuel", "m.FUEL", "m.fuel.", "a b", "fuel/.fuel/m.fuel.x" };
	const char * roots[] = { "", "LP/", "Library/", "lib/fuel/", "FP/" };
	for (auto name : names) for (int set = 0; set < 64; ++set) for (int lp = 0; lp < 2; ++lp) for (int fp = 0; fp < 2; ++fp) for (int how = 0; how < 2; ++how)
	{
		w.item([&]() { return std::string("import ") + name + " places " + std::to_string(set) + (lp ? " -l" : "") + (fp ? " FUELPATH" : "") + (how ? " relative" : ""); }, [&]() -> std::string
		{
			std::string nm = name; for (char & c : nm) if (c == '\\') c = '/';
			if (nm.compare(0, 2, "./") == 0) nm = nm.substr(2);
			std::string ext = nm.size() >= 5 && nm.substr(nm.size() - 5) == ".fuel" ? nm : nm + ".fuel";
			Files f;
			for (int i = 0; i < 5; ++i) if (set >> i & 1) f[std::string(roots[i]) + ext] = "(def where \"" + std::string(roots[i]) + "\")";
			if (set >> 5 & 1) f[nm] = "(def where \"asis\")";
			ref::Interp m; setup(m, f);
			std::string lib = how ? "./LP" : dir.path + "/LP", fuel = how ? "FP" : dir.path + "/FP";
			std::string code = "(do (import \"" + std::string(name == std::string("sub\\mod") ? "sub\\\\mod" : name) + "\") (println where))";
			if (lp) m.libPath = lib;
			if (fp) { m.hasFuelPath = true; m.fuelPath = fuel; setenv("FUELPATH", fuel.c_str(), 1); } else unsetenv("FUELPATH");
			// the model knows relative paths only
			if (!how) { Files g = m.files; for (auto & x : g) m.files[dir.path + "/" + x.first] = x.second; }
			ref::Res r = m.eval(code); w.steps(m.steps);
			std::vector<std::string> args = { "-e", code };
			args.push_back(lp ? "-l=" + lib : std::string("-l="));
			fx::CliOut c = fx::cli(args, "");
			unsetenv("FUELPATH");
			w.traces(1); w.state(code + std::to_string(set)); w.outcome(m.out);
			if (r.kind == ref::Res::Unspec) return "";
			if (c.foreign || c.lispError) return "exception " + c.what;
			if (c.output != m.out) return "expected output " + mc::q(m.out) + ", observed " + mc::q(c.output);
			return "";
		});
	}
	// things that are no modules: directories, other kinds of values
	for (auto nm : { "d", "d.fuel", "Library", "lib", "lib/fuel", "" }) for (auto nm2 : { "a", "" }) 
		w.item([&]() { return std::string("directory ") + nm + " " + nm2; }, [&]() -> std::string
		{
			diff::Pair p; Files f = { { "d/x.fuel", "(def q 1)" }, { "d.fuel/x.fuel", "(def q 1)" }, { "Library/a.fuel", "(def q 2)" }, { "lib/fuel/b.fuel", "(def q 3)" } };
			setup(p.m, f); diff::Opt o; bool j;
			std::string bad = p.step(w, std::string("(do (import \"") + nm + "\" \"" + nm2 + "\") (def done 1))", o, j);
			return bad.empty() && j ? p.step(w, "(list done)", o, j) : bad;
		});
	// chains of modules of every length; every module sees the ones it imports
	for (int k = 1; k <= (w.thorough() ? 24 : 12); ++k) for (int bad = 0; bad <= k; ++bad) for (int order = 0; order < 2; ++order)
	{
		Files f;
		for (int i = 1; i <= k; ++i)
		{
			std::string s = std::to_string(i), nx = std::to_string(i + 1), imp = i < k ? "(import \"m" + nx + ".fuel\") " : "", def = "(def v" + s + " " + s + ") (defn f" + s + " (x) " + (i < k ? "(f" + nx + " (cons v" + s + " x))" : "(cons v" + s + " x)") + ") (print \"<" + s + "\") ";
			f["m" + s + ".fuel"] = (order ? def + imp : imp + def) + (i == bad ? "(first (list))" : "") + " (print \">" + s + "\")";
		}
		hist(f, { "(def v0 0)", "(import \"m1.fuel\")", "(f1 '())", "(f" + std::to_string(k) + " '(9))", "(list v1 v" + std::to_string(k) + ")", "(do (def v1 99) (f1 (list)))", "(list v1)" });
	}
	// any number of modules in one import, imported again, with long names and contents
	for (int k = 1; k <= (w.thorough() ? 60 : 24); ++k) for (int kind = 0; kind < 5; ++kind)
	{
		Files f; std::string imp = "(import", again, use = "(list", fns = "(list";
		for (int i = 1; i <= k; ++i)
		{
			std::string s = std::to_string(i), nm = kind == 1 ? "m" + std::string(i * 4, 'x') + s : kind == 2 ? "dir" + s + "/m" : kind == 3 ? "m" + s + "x.y" : "m" + s;
			std::string body; for (int j = 0; j < (kind == 4 ? k : 1); ++j) { std::string v = s + (kind == 4 ? "_" + std::to_string(j) : ""); body += "(def v" + v + " " + std::to_string(i * 100 + j) + ")\n(defn f" + v + " (x)\n (list x v" + v + "))\n(defn s" + v + " (x) (setf v" + v + " x))\n"; if (j == 0) { use += " v" + v; fns += " (f" + v + " " + s + ")"; } }
			f[(i % 2 || kind == 3 ? "" : "Library/") + nm + ".fuel"] = body + (i % 4 == 0 ? "(println \"m" + s + "\")" : "");
			imp += " \"" + nm + (i % 2 || kind == 3 ? ".fuel" : "") + "\""; if (i == k / 2 + 1) again = "(import \"" + nm + ".fuel\")";
		}
		std::string mid = std::to_string(k / 2 + 1) + (kind == 4 ? "_0" : "");
		hist(f, { "(def x 7)", imp + ")", use + " x)", fns + ")", "(s" + mid + " 55)", "(list v" + mid + " (f" + mid + " 0))", again, "(list v" + mid + " (f" + mid + " 0))", use + ")", imp + ")", fns + ")" });
		hist(f, { "(def x 7)", "(defn h () (do " + imp + ") " + fns + ")))", "(h)", use + ")", "(h)", use + ")" });
	}
	// variables of modules of every kind of value
	const char * kinds[] = { "(nop)", "NIL", "#f", "#t", "0", "1.5", "\"\"", "\"s\"", "'sym", "(list)", "(list 1 (list 2))", "(make-dict)", "(fn (x) (list x mz))", "list", "'(a b)", "(list (nop))", "(if #f 1)", "(parse-integer \"q\")" };
	for (auto a : kinds) for (auto b : kinds) for (int deep = 0; deep < 2; ++deep)
	{
		Files f; f[deep ? "in.fuel" : "m.fuel"] = std::string("(def mz 5)\n(def mv ") + a + ")\n(def mw " + b + ")\n(defn mget () (list mv mw (typestr mv) (typestr mw)))\n(defn mset (x) (setf mv x))\n(defn marg (mv) (list mv mw))";
		if (deep) f["m.fuel"] = "(import \"in.fuel\")\n(defn outer () (list (mget) mw (typestr mv)))";
		hist(f, { "(def x 1)", "(import \"m.fuel\")", "(list mv mw)", "(list (typestr mv) (typestr mw))", "(list mv)", "(mget)", deep ? "(outer)" : "(nop)", "(mset mw)", "(list mv (typestr mv))", "(mget)", "(marg 3)", "(defn h (q) (list q mv (typestr mw)))", "(h mv)", "(map typestr (list mv mw))", "(mset 7)", "(list mv)", "(def mv 8)", "(list mv (mget))" });
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P21",
		"all histories up to length 3 (thorough 4 beginning with an import) of 46 imports and uses of 12 modules (variables, functions, macros, nested imports, failing, returning, empty, rewritten and missing modules); all histories of 5 (6) of 13 operations on one module; 19 names (with the extension at the end, in the middle, in a directory, in capitals, alone) x all subsets of 6 places x library path x FUELPATH, relative and absolute; directories; chains of 1..12 (24) modules with a failure in any of them; 1..24 (60) modules in one import with long names, folders, dots and many definitions, imported again; variables of modules with all pairs of 18 kinds of value, direct and behind another module",
		"reference interpreter with a virtual file system: value, output, globals after every step, and the files on disk",
		{ "a name defined by several imported modules and compile time macros of modules are not judged", "all files are in a scratch directory" }, explore });
}
