// The command line.
#include "dbg.h"
#include "diff.h"
#include "scratch.h"
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
static scratch::Dir dir;
typedef std::map<std::string, std::string> Files;
typedef std::vector<std::string> Args;
static Files files;
static const std::string input = "(def q 1)\n(list q)\n(nosuch)\nb 2\nlist\nexit\n(println \"behind\")\n";
static std::string version() { return "\nFUEL(isp) \x01\n\n"; }
// what the command line has to write; throws Unspecified
static std::string model(const Args & args)
{
	if (args.empty()) return version() + "\x01\n\nusage:\n\x02";
	Args rest = args, scripts, libs;
	auto take = [&](const char * o) { auto i = std::find(rest.begin(), rest.end(), o); if (i == rest.end()) return false; rest.erase(i); return true; };
	for (auto & a : args) { if (a.compare(0, 1, "-") != 0) scripts.push_back(a); if (a.compare(0, 3, "-l=") == 0) libs.push_back(a); }
	bool measure = take("-m");
	if (take("-v")) return "fuel " + fx::versionString() + " from \x01\n";
	if (take("-h")) return version() + "\x01\n\nusage:\n\x02";
	bool doc = take("--doc"), html = take("--html");
	bool expand = take("--macro-expand"), verbose = take("-x"), trace = take("-t"), code = take("-e");
	if (libs.size() > 1) return "Error: only one library path is supported\n";
	std::string lib = libs.empty() ? "" : libs[0].substr(3);
	if (libs.size() == 1) take(libs[0].c_str());
	trace = trace || doc || html;
	bool inter = take("-i"), debug = take("-d");
	for (auto & s : scripts) take(s.c_str());
	if (!rest.empty()) { std::string r = "Error: unknown option(s) "; for (auto & x : rest) r += x + " "; return r + "\n"; }
	if (code)
	{
		auto e = std::find(args.begin(), args.end(), "-e");
		if (scripts.empty() || e + 1 == args.end() || *(e + 1) != scripts[0] || std::find(args.begin(), e, scripts[0]) != e) throw ref::Unspecified{ "-e without a script behind it" };
	}
	std::string out, in = input; std::string last = "<undefined>";
	auto finish = [&]() { if (expand) out += "Macro expand: " + last + "\n"; if (trace) out += "Result=" + last + "\n"; if (measure) out += "Execution time = \x01\n"; return out; };
	auto header = [&]() { out += version() + "Type \"help\" for informations.\n\n"; };
	if (inter || debug)
	{
		if (trace || (inter && debug)) throw ref::Unspecified{ "tracing or two loops" };
		header();
		dbg::Model d; std::string s = input; for (size_t p; (p = s.find('\n')) != std::string::npos; s = s.substr(p + 1)) d.cmds.push_back(s.substr(0, p));
		d.files = files;
		if (inter) { if (!d.repl()) throw ref::Unspecified{ d.unspec }; out += d.out; return finish(); }
		d.module = code ? "command-line" : scripts.empty() ? "" : scripts[0];
		if (code) d.script = scripts[0]; else { auto f = files.find(d.module); d.script = f == files.end() ? "" : f->second; }
		if (!lib.empty()) throw ref::Unspecified{ "library path" };
		if (!d.run()) throw ref::Unspecified{ d.unspec };
		out += d.out; if (d.failed) return out + "\x02"; last = d.result == "<null>" ? "<undefined>" : "\x01"; return finish();
	}
	auto run = [&](const std::string & script, const std::string & mod, bool tr, bool vb)
	{
		ref::Interp m; m.files = files; m.libPath = lib; m.tracing = tr;
		m.input = in;
		ref::Res r = m.eval(script, expand, mod);
		in = m.input.substr(m.inPos);
		if (r.kind == ref::Res::Unspec || r.kind == ref::Res::Diverge) throw ref::Unspecified{ r.why };
		out += m.out;
		if (r.kind == ref::Res::Error) { out += "\nError executing script.\n\n\x02"; last = "\x01"; (void)vb; }
		else last = r.text.empty() && r.repr == "" ? "<undefined>" : r.text == "?" ? "\x01" : r.repr == "<null>" ? "<undefined>" : r.text;
	};
	if (code) { if (!scripts[0].empty()) run(scripts[0], "cmdline", false, false); }
	else if (doc || html)
	{
		if (expand) throw ref::Unspecified{ "expansion of the documentation" };
		static std::map<bool, std::string> text; if (!text.count(html)) { fx::Session x; text[html] = x.eval(html ? "(htmldoc)" : "(doc)").text; }
		last = text[html];
	}
	else for (auto & s : scripts) { auto f = files.find(s); run(f == files.end() ? "" : f->second, s, trace, verbose); }
	return finish();
}
static void explore(mc::W & w)
{
	unsetenv("FUELPATH");
	files = { { "a.fuel", "(println \"A\")\n(def x 1)\n(list x 2)" }, { "e.fuel", "(println \"E\")\n(upper-case)\n(println \"F\")" }, { "m.fuel", "(define-macro-expand mac (p) (list '+ p 1))\n(def y 2)\n(println (mac y))\n(mac 3)" },
		{ "x.fuel", "(list x)\n(setf x 1)" }, { "l.fuel", "(import \"lm\")\n(println lv)" }, { "LP/lm.fuel", "(def lv \"LP\")" }, { "LQ/lm.fuel", "(def lv \"LQ\")" }, { "empty.fuel", "" }, { "r.fuel", "(println (readline))\n(return \"res\")\n(println 2)" }, { "s.fuel", "(print 1" }, { "n.fuel", "(if #f 1)" } };
	static int capture = -1;
	auto one = [&](const Args & a)
	{
		w.item([&]() { std::string s = "fuel"; for (auto & x : a) s += " " + mc::q(x); return s; }, [&]() -> std::string
		{
			std::string want;
			try { want = model(a); } catch (ref::Unspecified & u) { w.tag("not judged: " + u.why); return ""; }
			static bool ready = false; if (!ready) { dir.enter(); for (auto & f : files) scratch::put(f.first, f.second); ready = true; }
			// the library path is a global of the process: every run of the program starts without one
			fx::cli({ "-l=", "-e", "(nop)" }, "");
			// what is written to the given output appears on the standard output as well, once
			fflush(stdout); std::cout.flush();
			int old = dup(1);
			if (capture < 0) capture = memfd_create("out", 0);
			if (ftruncate(capture, 0) != 0) return "harness: ftruncate";
			lseek(capture, 0, SEEK_SET); dup2(capture, 1);
			fx::CliOut c = fx::cli(a, input);
			fflush(stdout); std::cout.flush(); off_t extra = lseek(capture, 0, SEEK_END); dup2(old, 1); close(old);
			w.traces(1); w.steps(1); w.state(want); w.outcome(c.output);
			if (c.foreign || c.lispError) return "exception " + c.what;
			std::string x((size_t)extra, ' '); if (extra > 0 && pread(capture, &x[0], extra, 0) < 0) x = "?";
			if (x != c.output) return "the standard output got " + mc::q(x) + " and the collected output is " + mc::q(c.output);
			return dbg::compare(want, c.output, false);
		});
	};
	const std::vector<std::string> args = { "-t", "-m", "-e", "(println 7)", "a.fuel", "--macro-expand", "m.fuel", "-l=LP", "l.fuel", "e.fuel", "-x", "-v", "-h", "-q", "-i", "-d", "(nosuch)", "-l=LQ", "none.fuel", "x.fuel", "empty.fuel", "r.fuel", "s.fuel", "n.fuel", "-", "(def z 2)", "-l", "--doc", "--html" };
	int n = (int)args.size();
	for (int k = 0; k <= (w.thorough() ? 4 : 3); ++k) { mc::Odo o(k, n); do { Args a; for (int d : o.d) a.push_back(args[d]); one(a); } while (o.next()); }
	const std::vector<std::string> some = { "-t", "-m", "-e", "(println 7)", "a.fuel", "--macro-expand", "m.fuel", "-l=LP", "l.fuel", "e.fuel" };
	for (int k = 4; k <= (w.thorough() ? 6 : 5); ++k) { mc::Odo o(k, 10); do { Args a; for (int d : o.d) a.push_back(some[d]); one(a); } while (o.next()); }
	// every list of files: each one runs in its own environment, in the given order
	const std::vector<std::string> fs = { "a.fuel", "x.fuel", "e.fuel", "m.fuel", "r.fuel", "none.fuel", "s.fuel" };
	for (auto pre : { "", "-t", "-x", "-m" }) for (int k = 1; k <= (w.thorough() ? 6 : 4); ++k) { mc::Odo o(k, 7); do { Args a; if (*pre) a.push_back(pre); for (int d : o.d) a.push_back(fs[d]); one(a); } while (o.next()); }
	// any number of files and very long code
	for (int n = 1; n <= (w.thorough() ? 60 : 24); ++n) for (auto pre : { "", "-t", "-x", "-m" }) for (int k = 0; k < 4; ++k) { Args a; if (*pre) a.push_back(pre); for (int i = 0; i < n; ++i) a.push_back(fs[k == 0 ? 0 : k == 1 ? i % 7 : k == 2 ? (i == n - 1 ? 2 : 3) : (i ? 0 : 2)]); one(a); }
	for (int n = 1; n <= (w.thorough() ? 400 : 120); ++n) { std::string s, t = "(println \"" + std::string(n * 3, 'x') + "\")"; for (int i = 0; i < n; ++i) s += "(print " + std::to_string(i) + ") "; one({ "-e", s }); one({ "-t", "-e", t }); one({ "-e", t, "-m" }); one({ "-e", s + "(list " + std::to_string(n) + ")", "-t" }); one({ "-x", "-e", s + "(nosuch)" }); one({ std::string("-") + std::string(n, 'z'), "a.fuel" }); one({ std::string(n, 'q') + ".fuel", "a.fuel" }); }
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P24",
		"all sequences of up to 3 (thorough 4) of 29 arguments, of 4..5 (6) of 10 of them, all lists of up to 4 (6) of 7 script files with 4 options; lists of up to 24 (60) files, code and unknown options of up to 120 (400) expressions or characters",
		"model of the command line on the reference interpreter: the complete output (position and text of errors excepted), and the standard output gets exactly that",
		{ "-e without the script directly behind it, tracing of the interactive loops and -i together with -d are not judged" }, explore });
}
