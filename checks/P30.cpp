// The interactive prompt.
#include "dbg.h"
#include "diff.h"
static void explore(mc::W & w)
{
	auto session = [&](const std::vector<std::string> & c)
	{
		w.item([&]() { return diff::join(c, " | "); }, [&]() -> std::string
		{
			dbg::Model d; d.cmds = c; d.cmds.push_back("exit");
			bool judged = d.repl();
			std::string in; for (auto & x : d.cmds) in += x + "\n";
			w.steps(d.cmds.size());
			if (!judged) { w.tag("not judged: " + d.unspec); if (d.unspec == "too long") return ""; }
			fx::DbgOut o = fx::replLoop(in);
			w.traces(1); w.outcome(o.output); w.state(d.out);
			if (o.foreign || o.lispError) return "exception left the prompt: " + o.what;
			if (!judged) return "";
			std::string bad = dbg::compare(d.out, o.output, false);
			if (!bad.empty()) return bad;
			// the same code evaluated as one session without prompt writes the same and has the same results
			fx::Session s; std::string want; bool all = true;
			for (auto & x : c) if (x.empty() || x[0] != '(' || x.find("readline") != std::string::npos) all = false;
			if (!all) return "";
			for (auto & x : c)
			{
				fx::Out e = s.eval(x);
				want += "FUEL(isp)-DBG> " + s.takeOutput() + (e.ok() ? "result=" + (e.repr == "<null>" ? std::string("<undefined>") : e.text) : std::string("Exception: \x01")) + "\n";
			}
			want += "FUEL(isp)-DBG> ";
			w.traces(1);
			bad = dbg::compare(want, o.output, false);
			return bad.empty() ? "" : "differs from the session without prompt: " + bad;
		});
	};
	const std::vector<std::string> lines = { "(def x 1)", "(setf x (+ x 1))", "(println x)", "(list x y)", "(def y (list 1))", "(push x y)", "(nosuch 1)", "(first (list))", "(", "(list 1))", "(defn f (a) (do (setf x a) (return (list a x))))", "(f 5)", "(do (println \"a\") (f 7))", "(define-macro-eval m (a) (list a a))", "(m (f 1))", "(return 3)", "(do (return 4) (println \"no\"))", "(readline)", "(def x (readline))", "x", "5", "\"s\"", "'(1 2)", "(evalstr \"(def z 3)\")", "(list z)", "(print 1) (print 2)", "(println) ; comment", "(while (< x 3) (setf x (+ x 1)))", "stack", "list", "break 3", "locals", "clear 1", "up", "down", "(vars)", "(define-macro-expand ce (a) (list '+ a 1))", "(ce 5)", "(fn (q) q)", "(make-dict)", "(format \"{0}\" \"{1}\")", "(println \"{0} result=\")", "(if #f 1)", "(def f 3)", "(gdef y 9)", "   (list 1)   ", "; only a comment", "(delvar 'x)" };
	int n = (int)lines.size();
	for (int k = 0; k <= (w.thorough() ? 3 : 2); ++k) { mc::Odo o(k, n); do { std::vector<std::string> c; for (int d : o.d) c.push_back(lines[d]); session(c); } while (o.next()); }
	for (auto e : { "exit", "quit", "q", "", "run", "r", "step", "s", "over", "v", "out", "o", "restart", "  exit  " }) for (auto & a : lines) { session({ a, e, "(println \"behind\")" }); session({ e, a }); }
	const std::vector<std::string> core = { "(def x 1)", "(setf x (+ x 1))", "(nosuch 1)", "(defn f (a) (do (setf x a) (return (list a x))))", "(f 5)", "(return 3)", "(list x y)", "(println x)", "(push x y)", "(gdef y (list 9))", "(" , "(readline)", "(m (f 1))", "(define-macro-eval m (a) (list a a))" };
	for (int k = 3; k <= (w.thorough() ? 5 : 4); ++k) { mc::Odo o(k, 14); do { std::vector<std::string> c; for (int d : o.d) c.push_back(core[d]); session(c); } while (o.next()); }
	// long sessions: the number of lines before does not matter
	for (int k = 1; k <= (w.thorough() ? 300 : 60); ++k)
	{
		std::vector<std::string> c = { "(def x 0)", "(defn f (a) (list a x))" };
		for (int i = 0; i < k; ++i) c.push_back(i % 5 == 3 ? "(nosuch)" : i % 7 == 4 ? "(f 2)" : "(setf x (+ x 1))");
		c.push_back("(list x)"); session(c);
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P30",
		"all sessions of up to 2 (thorough 3) of 48 lines typed at the prompt, of 3..4 (5) of 14 of them, 14 ways to end a session before and after every line, sessions of every length up to 60 (300)",
		"model of the prompt on the reference interpreter: the complete transcript; and the transcript agrees with a session of the implementation that evaluates the same lines without prompt",
		{ "texts of errors are not compared; words that are commands of the debugger by their first letter are not judged" }, explore });
}
