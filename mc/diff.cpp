#include "diff.h"
#include <algorithm>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

namespace diff
{
	std::string join(const std::vector<std::string> & v, const char * sep)
	{
		std::string r;
		for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += v[i]; }
		return r;
	}
	std::string Pair::step(mc::W & w, const std::string & prog, const Opt & o, bool & judged, bool expandOnly)
	{
		judged = true;
		if (w.replaying()) fprintf(stderr, "eval: %s\n", prog.c_str());
		last = m.eval(prog, expandOnly);
		w.steps(m.steps);
		// how each program ended, for looking for families of programs that end otherwise than intended
		static FILE * dump = getenv("MC_DUMP") ? fopen((std::string(getenv("MC_DUMP")) + "." + std::to_string(getpid())).c_str(), "a") : nullptr;
		if (dump) { fprintf(dump, "%s\t%s\n", last.kind == ref::Res::Value ? "value" : last.kind == ref::Res::Error ? ("error " + last.why).c_str() : ("unspec " + last.why).c_str(), mc::q(prog).c_str()); fflush(dump); }
		if (last.kind == ref::Res::Unspec || last.kind == ref::Res::Diverge)
		{
			judged = false;
			w.tag(last.kind == ref::Res::Unspec ? "unspecified: " + last.why : std::string("diverges"));
			return "";
		}
		w.tag(last.kind == ref::Res::Value ? "value" : "error");
		fx::Out f = s.eval(prog, "test", expandOnly);
		lastOut = f;
		std::string out = s.takeOutput(), want = m.takeOutput();
		lastOutput = out;
		w.traces(1);
		w.state(m.stateKey() + "=>" + last.brief());
		w.outcome(last.brief() + "|" + want);
		if (w.replaying()) fprintf(stderr, "  expected %s output %s\n  observed %s output %s\n", last.kind == ref::Res::Error ? ("an error: " + last.why).c_str() : last.repr.c_str(), mc::q(want).c_str(), f.full().c_str(), mc::q(out).c_str());
		std::string at = " in " + prog;
		if (last.kind == ref::Res::Error)
		{
			if (f.kind == fx::Out::Foreign) return "foreign exception " + f.msg + at;
			if (f.ok()) return "expected an error (" + last.why + "), observed " + f.repr + at;
		}
		else
		{
			if (!f.ok()) return "expected " + last.repr + ", observed " + f.full() + at;
			if (o.value && ref::norm(f.repr) != ref::norm(last.repr)) return "expected " + last.repr + ", observed " + f.repr + at;
			if (o.value && o.text && last.text != "?" && f.repr != "<null>" && last.repr != "<null>" && f.text != last.text)
				return "expected text " + last.text + ", observed " + f.text + at;
		}
		if ((f.ok() || o.outputOnError) && out != want) return "expected output " + mc::q(want) + ", observed " + mc::q(out) + at;
		if (o.globals)
		{
			std::vector<std::string> a = s.globalNames(), b = m.names();
			std::set<std::string> all(a.begin(), a.end());
			all.insert(b.begin(), b.end());
			for (auto & n : all)
			{
				std::string x = s.global(n), y = m.var(n);
				if (ref::norm(x) != ref::norm(y)) return "variable " + n + ": expected " + (y.empty() ? "none" : y) + ", observed " + (x.empty() ? "none" : x) + " after" + at;
			}
		}
		return "";
	}
	std::string history(mc::W & w, const std::vector<std::string> & progs, const Opt & o)
	{
		Pair p;
		if (!o.input.empty()) { p.s.setInput(o.input); p.m.input = o.input; }
		for (auto & c : progs)
		{
			bool judged;
			std::string bad = p.step(w, c, o, judged);
			if (!bad.empty()) return bad;
			if (!judged) break;
		}
		return "";
	}
	std::string program(mc::W & w, const std::string & prog, const Opt & o) { return history(w, { prog }, o); }
}
