// Reference model of the debugger on top of the reference interpreter: it produces the complete
// transcript (output of the program, stops, answers of the commands) of a debugging session.
// '\x01' in the transcript stands for any text up to the end of the line.
#pragma once
#include "mc.h"
#include "adapter.h"
#include "ref.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <algorithm>
#include <cstring>

namespace dbg
{
	struct Exit {};                          // the user ends the session
	struct Bp { long line; std::string module, cond; };
	inline std::string trim(const std::string & s) { size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n"); return b == std::string::npos ? "" : s.substr(b, e - b + 1); }
	inline std::string pad(const std::string & s, int w) { size_t n = (size_t)abs(w); if (s.size() >= n) return s; std::string f(n - s.size(), ' '); return w < 0 ? s + f : f + s; }
	inline bool number(const std::string & s, long & v) { if (s.empty()) return false; char * e; errno = 0; v = strtol(s.c_str(), &e, 10); if (e == s.c_str() || *e) return false; return v <= 2147483647L && v >= -2147483648L; }

	// how expressions, conditions and programs ended, see MC_DUMP in diff.cpp
	inline void note(const std::string & how, const std::string & what)
	{
		static FILE * f = getenv("MC_DUMP") ? fopen((std::string(getenv("MC_DUMP")) + ".d" + std::to_string(getpid())).c_str(), "a") : nullptr;
		if (f) { fprintf(f, "%s\t%s\n", how.c_str(), mc::q(what).c_str()); fflush(f); }
	}
	struct Model
	{
		std::string script, module, out, result = "<null>";
		std::vector<std::string> cmds; size_t pos = 0;
		std::map<std::string, std::string> files, docs;      // docs: comment of a function, if it is judged
		std::vector<Bp> bps;
		bool stop = true; int kind = 0, level = 0;    // 0 step, 1 over, 2 out
		ref::Interp * m = nullptr;
		bool failed = false;                 // an error happened: the transcript is exact up to here
		int atPrompt = 0; long stops = 0, limit = 3000;
		std::string unspec;
		std::vector<std::string> states;

		std::string next() { return pos < cmds.size() ? trim(cmds[pos++]) : ""; }
		void flush() { out += m->out; m->out.clear(); }
		void say(const std::string & s) { m->out += s + "\n"; }
		// a module is named by its file, with or without a path (evaluated strings have no path)
		static std::string file(const std::string & m) { return m.compare(0, 10, "<evalstr>:") == 0 ? m : m.substr(m.find_last_of("/\\") + 1); }
		static bool same(const std::string & a, const std::string & b) { return a.empty() || b.empty() || file(a) == file(b); }
		ref::P evalHere(const std::string & code, ref::E env)
		{
			bool r = env->inReturn, in = env->inEval; auto cur = env->cur;
			struct Back { ref::E e; bool r, in; std::shared_ptr<ref::Tok> cur; ~Back() { e->inReturn = r; e->inEval = in; e->cur = cur; } } back{ env, r, in, cur };
			ref::P v = m->evalProgram(code, env, false, env->module);
			return v ? v : ref::mk(ref::Val::Undef);
		}
		bool hits(long line, const std::string & mod, ref::E env)
		{
			for (auto & b : bps) if (same(b.module, mod) && b.line == line)
			{
				if (!env || b.cond.empty()) return true;
				auto saved = m->onCall; m->onCall = nullptr; auto err = m->onError; m->onError = nullptr;
				struct Back { ref::Interp * m; decltype(saved) & s; decltype(err) & e; ~Back() { m->onCall = s; m->onError = e; } } back{ m, saved, err };
				std::string keep = m->out;
				try { ref::P v = ref::wrap(evalHere(b.cond, env)); note(v->k == ref::Val::Bool ? v->b ? "cond true" : "cond false" : "cond nobool", b.cond); if (v->k == ref::Val::Bool) return v->b; }
				catch (ref::Err & er) { note("cond error " + er.why, b.cond); }
				say("Error: bad condition for line " + std::to_string(b.line) + ": " + b.cond);
				return false;
			}
			return false;
		}
		void call(const ref::L & l, ref::E env)
		{
			long line = -1;
			if (l[0]->k != ref::Val::Raw && l[0]->tok) line = l[0]->tok->line;
			bool yes = stop && (kind == 0 || (kind == 1 ? env->level() <= level : env->level() <= level - 1));
			if (!yes) yes = hits(line, env->module, env);
			if (!yes) return;
			stop = false;
			if (atPrompt) throw ref::Unspecified{ "stop inside of an expression of the prompt" };
			stopAt(text(l[0]), env);
		}
		void stopAt(const std::string & what, ref::E env)
		{
			if (++stops > limit) throw ref::Diverges();
			auto & t = env->cur;
			say("--> " + what + " line=" + std::to_string(t ? t->line : -1) + " start=" + std::to_string(t ? t->start : 0) + " stop=" + std::to_string(t ? t->stop : 0) + " module=" + env->module + " token=" + (t ? t->s : "?"));
			states.push_back(std::to_string(t ? t->start : 0) + "/" + env->module + "/" + std::to_string(env->level()));
			loop(env, false);
		}
		std::string code(ref::E env, const std::string & said)
		{
			std::string mod = env->module, s;
			if (mod.empty()) s = said;
			else
			if (mod.compare(0, 10, "<evalstr>:") == 0) { size_t p = mod.find(':', 10); s = mod.substr(p + 1); }
			else { auto it = files.find(ref::Interp::norm(mod)); if (it != files.end()) s = it->second; }
			if (s.empty() && module == "command-line") s = script;
			std::string r; long n = 1, cur = env->cur ? env->cur->line : -1; size_t p = 0;
			for (;;)
			{
				size_t e = s.find('\n', p); std::string row = s.substr(p, e == std::string::npos ? e : e - p);
				r += pad(std::to_string(n), 3) + " " + pad(hits(n, mod, nullptr) ? "B " : "  ", 2) + " " + pad(cur == n ? "-->" : "", 3) + " " + row + "\n";
				if (e == std::string::npos) break;
				p = e + 1; ++n;
			}
			return r;
		}
		// ---- the questions about what is defined
		static std::string moduleName(std::string m)
		{
			const std::string tag = "<evalstr>:";
			if (m.compare(0, tag.size(), tag)) return m;
			m = m.substr(tag.size()); m = m.substr(0, m.find(':'));
			return m == "<evalstr>" ? "\x01" : m;
		}
		static std::string line(const std::string & key, const ref::P & v, const std::string & info)
		{
			if (v->f->builtin) return pad(key, 20) + " --> function (\x01\n";
			return pad(key, 20) + " --> " + pad(text(v), -40) + " : Function " + info + "\n";
		}
		// the global variables together with the builtin functions that are not part of the model
		std::map<std::string, ref::P> globals()
		{
			static const std::vector<std::string> names = fx::builtinNames();
			static ref::P other; if (!other) { other = ref::mk(ref::Val::Fn); other->f = std::make_shared<ref::Fun>(); other->f->builtin = true; }
			std::map<std::string, ref::P> r = m->global->vars;
			static ref::Interp fresh;
			for (auto & n : names) if (!fresh.global->vars.count(n) && n.compare(0, 3, "###")) r.insert({ n, other });
			return r;
		}
		void funcs(const std::map<std::string, ref::P> & vars, bool builtins, bool user, bool modules)
		{
			for (auto & kv : vars)
			{
				ref::P v = ref::wrap(kv.second);
				if (kv.first.compare(0, 3, "###") == 0 || v->k != ref::Val::Fn || !(v->f->builtin ? builtins : user)) continue;
				m->out += line(kv.first, v, modules ? " : module=" + moduleName(v->f->module) : "");
			}
		}
		void version() { say(""); say("FUEL(isp) " + fx::versionString() + "\x01"); say(""); }
		std::string doc(ref::E env, const std::string & name, bool part)
		{
			if (env != m->global) return "\x02";       // inside of a function: not specified
			std::string r;
			auto scan = [&](const std::map<std::string, ref::P> & vars)
			{
				for (auto & kv : vars)
				{
					ref::P v = ref::wrap(kv.second);
					if (v->k != ref::Val::Fn || (part ? kv.first.find(name) == std::string::npos : kv.first.compare(0, name.size(), name) != 0)) continue;
					const std::string & sig = v->f->sig;
					r += "-------------------------------------------------\n\n";
					if (v->f->builtin) r += "\x01\n\nSyntax: \x01\n\n\x02";
					else r += (sig.empty() ? "???" : sig.substr(1, sig.find_first_of(" )") - 1)) + "\x01\n\nSyntax: " + sig + "\n\n" + (docs.count(kv.first) ? docs[kv.first] + "\n\n\x02" : "\x02");
				}
			};
			scan(globals());
			for (auto & x : m->modules) scan(x.second->vars);
			return r.empty() ? "\n" : r;
		}
		// true: the program has to be restarted
		std::string interactive;
		bool loop(ref::E top, bool fromMain)
		{
			std::string said; said.swap(interactive);
			struct Keep { std::string & to, & from; ~Keep() { to.swap(from); } } keep{ interactive, said };
			ref::E env = top; std::vector<ref::E> down;
			for (;;)
			{
				m->out += "FUEL(isp)-DBG> ";
				std::string c = next();
				if (c.empty() || c == "exit" || c == "quit" || c == "q") { if (!fromMain) throw Exit(); return false; }
				auto starts = [&](const char * s) { return c.compare(0, strlen(s), s) == 0; };
				if (c == "s" || c == "step") { stop = true; kind = 0; return false; }
				if (c == "v" || c == "over") { stop = true; kind = 1; level = env->level(); return false; }
				if (c == "o" || c == "out") { stop = true; kind = 2; level = env->level(); return false; }
				if (c == "r" || c == "run") { stop = false; return false; }
				if (c == "restart") return fromMain;
				if (c == "h" || c == "help")
				{
					say(""); say("help for interactive loop:"); say("");
					for (auto h : { "(h)elp", "version", "about", "(c)ode", "stac(k)", "(u)p", "(d)own", "(r)un", "(s)tep", "o(v)er", "(o)ut", "(b)reak [module:]line [cond]", "clear [no]", "lis(t)", "restart", "(l)ocals", "(g)lobals", "modules", "builtins", "funcs", "macros", "doc [function]", "searchdoc name", "exit" }) say("  " + pad(h, -28) + " : \x01");
					say(""); continue;
				}
				if (c == "about") { version(); say("\x01"); say(""); continue; }
				if (c == "version" || c == "ver") { version(); continue; }
				if (c == "funcs") { funcs(globals(), true, true, true); for (auto & x : m->modules) funcs(x.second->vars, true, true, true); continue; }
				if (c == "builtins") { funcs(globals(), true, false, false); continue; }
				if (c == "macros") { for (auto & x : m->macros) say(x.first); continue; }
				if (c == "modules") { for (auto & x : m->modules) say(x.first); continue; }
				if (c == "doc" || c == "searchdoc") { for (auto & kv : globals()) if (kv.second->k == ref::Val::Fn && kv.second->f->builtin) m->out += pad(kv.first, 20) + " --> (\x02\n"; continue; }
				if (starts("doc ") || starts("searchdoc "))
				{
					std::string q = c.substr(c.find(' ') + 1); q = q.substr(0, q.find(' '));
					if (q.empty()) throw ref::Unspecified{ "documentation of nothing" };
					for (char x : q) if (!isalnum((unsigned char)x) && !strchr("+-*/<>=!_", x)) throw ref::Unspecified{ "name of a function" };
					say(doc(env, q, c[0] == 's')); continue;
				}
				if (c == "k" || c == "stack") { say(m->stackText(top, env->level())); continue; }
				if (c == "u" || c == "up") { if (!down.empty()) { env = down.back(); down.pop_back(); } continue; }
				if (c == "d" || c == "down") { if (env->previous) { down.push_back(env); env = env->previous; } continue; }
				if (c == "l" || c == "locals") { m->out += m->varsText(env); continue; }
				if (c == "g" || c == "globals") { m->out += m->varsText(m->global); continue; }
				if (c == "c" || c == "code") { m->out += code(env, said); continue; }
				if (c == "list" || c == "t")
				{
					say("Breakpoints:"); int n = 1;
					for (auto & b : bps) say("#" + pad(std::to_string(n++), -3) + " line=" + pad(std::to_string(b.line), -5) + " module=" + pad(b.module, -25) + " condition=" + b.cond);
					continue;
				}
				if (starts("clear"))
				{
					std::string r = trim(c.substr(5)); long n;
					if (r.empty())
					{
						say("Really delete all breakpoints? (y/n)");
						std::string a; do { a = pos < cmds.size() ? cmds[pos++] : ""; for (auto & x : a) x = (char)toupper((unsigned char)x); } while (!(a == "Y" || a == "N" || a == "YES" || a == "NO" || a.empty()));
						if (a == "Y" || a == "YES") bps.clear();
					}
					else if (number(r, n) && n >= 1 && n <= (long)bps.size()) bps.erase(bps.begin() + n - 1);
					else say("Warning: no breakpoint cleared");
					continue;
				}
				if (starts("break ") || starts("b ")) { add(trim(c.substr(c.find(' '))), env->module); continue; }
				if (!strchr("(0123456789\"'xyz;", c[0])) throw ref::Unspecified{ "command" };
				// an expression; breakpoints inside of it are not part of the model
				for (auto & b : bps) if (b.line == 1 && same(b.module, env->module)) throw ref::Unspecified{ "breakpoint in an expression of the prompt" };
				++atPrompt;
				struct Back { int & r; ~Back() { --r; } } back{ atPrompt };
				try { ref::P v = evalHere(c, env); say("result=" + text(ref::wrap(v))); said += c + "\n"; note("cmd value", c); }
				catch (ref::Err & er) { note("cmd error " + er.why, c); say("Exception: \x01"); }
			}
		}
		void add(const std::string & rest0, const std::string & current)
		{
			std::string rest = rest0, mod = current, num, cond; bool ok = true;
			if (rest[0] == '"')
			{
				size_t e = rest.find('"', 1);
				if (e == std::string::npos) { say("Warning: no breakpoint set or modified"); return; }
				mod = rest.substr(1, e - 1); rest = rest.substr(e + 1);
				ok = rest[0] == ':'; if (ok) rest = rest.substr(1);
			}
			size_t sp = rest.find(' ');
			num = rest.substr(0, sp); cond = sp == std::string::npos ? "" : trim(rest.substr(sp));
			size_t col = num.rfind(':');
			if (ok && col != std::string::npos) { mod = num.substr(0, col); num = num.substr(col + 1); }
			long n;
			if (!ok || !number(num, n)) { say("Warning: no breakpoint set or modified"); return; }
			if (n < 0) throw ref::Unspecified{ "negative line" };
			for (auto & b : bps) if (b.line == n && b.module == mod) { b.cond = cond; return; }
			bps.push_back({ n, mod, cond });
		}
		// the prompt without a program
		bool repl()
		{
			try
			{
				ref::Interp in; m = &in; in.files = files; in.maxSteps = 200000;
				in.onReadLine = [this]() -> std::string { return pos < cmds.size() ? cmds[pos++] : std::string(); };
				try { loop(in.global, true); } catch (ref::Err &) { failed = true; }
				flush(); return true;
			}
			catch (ref::Unspecified & u) { unspec = u.why; }
			catch (ref::Diverges &) { unspec = "too long"; }
			return false;
		}
		// the whole session; false: not judged
		bool run()
		{
			try
			{
				for (bool again = true; again; )
				{
					ref::Interp in; m = &in; in.files = files; in.maxSteps = 200000;
					in.onReadLine = [this]() -> std::string { return pos < cmds.size() ? cmds[pos++] : std::string(); };
					in.onCall = [this](const ref::L & l, ref::E e) { call(l, e); };
					in.onBreak = [this](ref::E e) { if (atPrompt) throw ref::Unspecified{ "break at the prompt" }; loop(e, false); };
					in.onError = [this](const ref::P & body, ref::E e)
					{
						if (atPrompt) throw ref::Unspecified{ "error in a function called at the prompt" };
						if (!body->l || body->l->empty()) throw ref::Unspecified{ "error without call" };
						m->out += "\x02"; stopAt(text(body->l->front()), e);
					};
					bool ended = false;
					try
					{
						ref::P v = in.evalProgram(script, in.global, false, module);
						result = v ? ref::repr(v) : "<null>"; ended = v != nullptr; note("prog value", script);
						stop = true; kind = 0;
					}
					catch (Exit &) { again = false; }
					catch (ref::Err & er)
					{
						note("prog error " + er.why, script);
						// the user may have a look at what is left, restart starts from the beginning
						m->out += "\nException: \x02\nStack:\n\x01\n";
						again = loop(in.global, true);
					}
					if (again) { say("restart program"); if (result == "<null>") again = loop(in.global, true); }
					flush();
				}
				return true;
			}
			catch (ref::Unspecified & u) { unspec = u.why; }
			catch (ref::Diverges &) { unspec = "too long"; }
			return false;
		}
	};
	// expected text; '\x01' stands for any text up to the end of the line, '\x02' for any text at all;
	// a failing program is compared up to the failure only
	inline std::string compare(const std::string & expected, const std::string & observed, bool prefix)
	{
		size_t at = expected.find('\x02');
		if (at != std::string::npos)
		{
			std::string bad = compare(expected.substr(0, at), observed, true);
			if (!bad.empty()) return bad;
			std::string rest = expected.substr(at + 1), lit = rest.substr(0, rest.find_first_of("\x01\x02"));
			if (rest.empty()) return "";
			for (size_t p = observed.find(lit); p != std::string::npos; p = observed.find(lit, p + 1)) { bad = compare(rest, observed.substr(p), prefix); if (bad.empty()) return ""; }
			return bad.empty() ? "missing output " + mc::q(lit) + " in " + mc::q(observed) : bad;
		}
		size_t i = 0, j = 0;
		while (i < expected.size())
		{
			if (expected[i] == '\x01') { ++i; while (j < observed.size() && observed[j] != '\n') ++j; continue; }
			if (j >= observed.size() || observed[j] != expected[i])
			{
				size_t b = i ? expected.rfind('\n', i - 1) : std::string::npos, c = j ? observed.rfind('\n', std::min(j, observed.size()) - 1) : std::string::npos;
				b = b == std::string::npos ? 0 : b + 1; c = c == std::string::npos ? 0 : c + 1;
				return "output differs at character " + std::to_string(i) + ": expected " + mc::q(expected.substr(b, 200)) + ", observed " + mc::q(observed.substr(c, 200));
			}
			++i; ++j;
		}
		if (!prefix && j != observed.size()) return "additional output " + mc::q(observed.substr(j, 200));
		return "";
	}
	inline std::string session(mc::W & w, const std::string & script, const std::string & module, const std::vector<std::string> & cmds, const std::map<std::string, std::string> & files = {}, const std::map<std::string, std::string> & docs = {})
	{
		Model d; d.script = script; d.module = module; d.cmds = cmds; d.files = files; d.docs = docs;
		bool judged = d.run();
		std::string input; for (auto & c : cmds) input += c + "\n";
		w.steps(d.stops + cmds.size());
		for (auto & s : d.states) w.state(script + "|" + s);
		if (!judged) w.tag("not judged: " + d.unspec);
		if (!judged && d.unspec == "too long") return "";
		fx::DbgOut o = fx::debugLoop(script, module, input);
		w.traces(1); w.outcome(d.out);
		if (o.foreign || o.lispError) return "exception left the debugger: " + o.what;
		std::string bad = compare(d.out, o.output, d.failed || !judged);
		if (!bad.empty()) return bad;
		if (judged && !d.failed && ref::norm(o.result) != ref::norm(d.result)) return "expected result " + d.result + ", observed " + o.result;
		return "";
	}
}
