// Files.
#include "diff.h"
#include "scratch.h"
#include <csignal>
#include <sys/resource.h>
static scratch::Dir dir;
typedef std::map<std::string, std::string> Files;
static std::string same(const ref::Interp & m)
{
	Files have; scratch::tree(".", have);
	if (have == m.files) return "";
	for (auto & f : have) { auto it = m.files.find(f.first); if (it == m.files.end()) return "unexpected file " + f.first; if (it->second != f.second) return "file " + f.first + ": expected " + mc::q(it->second) + ", observed " + mc::q(f.second); }
	return "file is missing";
}
static std::string lit(const std::string & s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else r += c; } return r + "\""; }
static void explore(mc::W & w)
{
	signal(SIGXFSZ, SIG_IGN);
	auto hist = [&](const Files & files, const std::vector<std::string> & h)
	{
		w.item([&]() { return diff::join(h, " ;; "); }, [&]() -> std::string
		{
			diff::Pair p; dir.enter();
			mkdir("dir", 0755); p.m.dirs.push_back("dir");
			for (auto & f : files) { scratch::put(f.first, f.second); p.m.files[f.first] = f.second; }
			diff::Opt o;
			for (auto & c : h)
			{
				bool judged; std::string bad = p.step(w, c, o, judged); if (!bad.empty()) return bad; if (!judged) return "";
				bad = same(p.m); if (!bad.empty()) return bad + " after " + c;
			}
			return "";
		});
	};
	// contents
	std::vector<std::string> texts;
	const std::string abc = "a\n\r\"\\ ";
	for (int n = 0; n <= (w.thorough() ? 5 : 4); ++n) { mc::Odo o(n, (int)abc.size()); do { std::string s; for (int d : o.d) s += abc[d]; texts.push_back(s); } while (o.next()); }
	for (int c = 0; c < 256; ++c) { texts.push_back(std::string(1, (char)c)); texts.push_back(std::string("x") + (char)c + (char)c + "\ny"); }
	for (auto & t : { std::string("\0", 1), std::string("a\0", 2), std::string("\0b", 2), std::string("a\0b\0\0c\n\0", 8), std::string("\xEF\xBB\xBF" "a"), std::string("\xFF\xFE" "a\0", 4), std::string("a\x1A" "b"), std::string("\r\n\r"), std::string("x\n\n\n") }) texts.push_back(t);
	for (auto & t : texts) hist({ { "old", "1234567890" } }, { "(def t " + lit(t) + ")", "(File-WriteAllText \"new\" t)", "(File-WriteAllText \"old\" t)", "(list (== t (File-ReadAllText \"new\")) (== t (File-ReadAllText \"old\")) (len (File-ReadAllText \"new\")))", "(File-ReadAllText \"new\")" });
	for (auto & t : texts) if (t.size() <= 3 || t[0] == 'a' || (unsigned char)t[0] > 127) hist({ { "in", t } }, { "(File-ReadAllText \"in\")", "(File-WriteAllText \"out\" (File-ReadAllText \"in\"))", "(len (File-ReadAllText \"out\"))", "(File-WriteAllText \"in\" (+ (File-ReadAllText \"in\") (File-ReadAllText \"in\")))" });
	// sizes around the sizes of buffers
	for (int k = 0; k <= (w.thorough() ? 20000 : 9000); k = k < 40 ? k + 1 : k < 4000 ? k + 397 : k < 4200 ? k + 7 : k < 8100 ? k + 1301 : k < 8300 ? k + 11 : k + 4999)
	{
		std::string s; for (int i = 0; i < k; ++i) s += (char)('a' + i % 26);
		hist({ { "in", s } }, { "(len (File-ReadAllText \"in\"))", "(File-WriteAllText \"out\" (File-ReadAllText \"in\"))", "(== (File-ReadAllText \"out\") (File-ReadAllText \"in\"))", "(File-WriteAllText \"in\" (slice (File-ReadAllText \"in\") 0 " + std::to_string(k / 2) + "))" });
	}
	// histories over files, directories and missing places
	const char * ops[] = { "(File-WriteAllText \"f\" \"one\")", "(File-WriteAllText \"f\" \"\")", "(File-WriteAllText \"dir/g\" \"two\n\")", "(File-WriteAllText \"nodir/g\" \"x\")", "(File-WriteAllText \"dir\" \"x\")", "(File-WriteAllText \"\" \"x\")", "(File-Exists \"f\")", "(File-Exists \"dir/g\")", "(File-Exists \"dir\")", "(File-Exists \"nodir/g\")", "(File-Exists \"\")", "(File-ReadAllText \"f\")", "(File-ReadAllText \"dir/g\")", "(File-ReadAllText \"dir\")", "(File-ReadAllText \"none\")", "(File-ReadAllText \"\")", "(File-WriteAllText \"f\" (+ (File-ReadAllText \"f\") (File-ReadAllText \"dir/g\") \"+\"))", "(File-WriteAllText \"dir/g\" 42)", "(File-WriteAllText 'sym 1.5)", "(File-ReadAllText 'sym)", "(File-WriteAllText \"f\")", "(File-WriteAllText)", "(File-Exists)", "(File-ReadAllText)", "(File-ReadAllText \"f\" \"f\")", "(evalstr (File-ReadAllText \"prog\"))", "(File-WriteAllText \"prog\" \"(def k (+ k 1))\")", "(def k 1)" };
	int n = sizeof ops / sizeof *ops;
	for (int k = 1; k <= (w.thorough() ? 4 : 3); ++k) { mc::Odo o(k, n); do { if (k == 4 && (o.d[0] > 5 && o.d[0] < 16)) continue; std::vector<std::string> h; for (int d : o.d) h.push_back(ops[d]); hist({}, h); } while (o.next()); }
	// values of every kind as content and as name
	const char * vals[] = { "1", "-1.5", "#t", "#f", "'s", "\"t\"", "(list 1 \"a\" 'b)", "(list)", "(make-dict)", "(+ \"a\" 1)", "1e10", "(list (list 1) 2)" };
	for (auto v : vals) { hist({}, { std::string("(File-WriteAllText \"o\" ") + v + ")", "(File-ReadAllText \"o\")" }); for (auto u : vals) hist({}, { std::string("(File-WriteAllText ") + v + " " + u + ")", std::string("(list (File-Exists ") + v + ") (File-ReadAllText " + v + "))" }); }
	// the file system refuses: every number of bytes that still can be written
	for (int size = 0; size <= (w.thorough() ? 300 : 60); ++size) for (int limit = 0; limit <= size + 1; ++limit) for (int big = 0; big < 2; ++big)
		w.item([&]() { return "disk full at byte " + std::to_string(limit) + " of " + std::to_string(size) + (big ? " x 1000" : ""); }, [&]() -> std::string
		{
			dir.enter();
			int k = big ? 1000 : 1;
			std::string s(size * k, 'z');
			scratch::put("in", s);
			fx::Session f;
			f.eval("(def t (File-ReadAllText \"in\"))");
			struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = (rlim_t)limit * k; setrlimit(RLIMIT_FSIZE, &lim);
			fx::Out o = f.eval("(File-WriteAllText \"out\" t)");
			setrlimit(RLIMIT_FSIZE, &old);
			w.traces(1); w.steps(1); w.state(std::to_string(size) + "/" + std::to_string(limit)); w.outcome(o.full());
			bool ok = limit >= size;
			if (!o.ok() || o.repr != (ok ? "#t" : "#f")) return std::string("expected ") + (ok ? "#t" : "#f") + ", observed " + o.full();
			if (ok && scratch::get("out") != s) return "content differs";
			o = f.eval("(len t)");
			if (o.repr != std::to_string(s.size())) return "the session does not work: " + o.full();
			return "";
		});
	for (auto p : { "/dev/full", "/proc/nonexistent/x", "/dev/null/x" })
		w.item(p, [&]() -> std::string
		{
			fx::Session f; fx::Out o = f.eval(std::string("(File-WriteAllText \"") + p + "\" \"abc\")");
			w.traces(1); w.steps(1);
			return o.ok() && o.repr == "#f" ? "" : "expected #f, observed " + o.full();
		});
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P25",
		"all texts over 6 characters up to length 4 (thorough 5), every byte (zero included), byte order marks and sizes around buffer sizes written, read back and overwritten; all histories up to length 3 (4) of 28 file operations; values of all kinds as names and contents; writing 0..60 (300) bytes and blocks with the file system failing at every byte",
		"reference interpreter with a virtual file system: value of every step and all files on disk after every step; a write that failed returns false",
		{ "all files are in a scratch directory; the file system fails by RLIMIT_FSIZE and /dev/full" }, explore });
}
