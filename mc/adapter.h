// The only window of the checks on the implementation: plain C++ types, no fuel headers.
// Everything goes through fuel's public entry points (Lisp::Eval, LispTokenizer::Tokenize,
// LispParser::Parse, Fuel::MainExtended, create_debugger()).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>

namespace fx
{
	struct Out
	{
		enum Kind { Value = 0, LispError = 1, LispErrorBase = 2, Foreign = 3 };
		Kind kind = Value;
		std::string repr;     // canonical rendering of the value (see repr rules in adapter.cpp)
		std::string text;     // the value's own ToString()
		std::string type;     // TypeString()
		std::string msg;      // exception message
		int line = -2, start = -2, stop = -2;   // error position data (-2: not present)
		std::string module, stack;              // error data
		bool ok() const { return kind == Value; }
		bool lispError() const { return kind == LispError || kind == LispErrorBase; }
		// rendering used for comparison: value or "ERR" or "FOREIGN:..."
		std::string brief() const
		{
			if (kind == Value) return repr;
			if (kind == Foreign) return "FOREIGN:" + msg;
			return "ERR";
		}
		std::string full() const
		{
			if (kind == Value) return repr + " [" + text + "]";
			if (kind == Foreign) return "FOREIGN:" + msg;
			return "ERR:" + msg;
		}
	};

	class SessionImpl;
	std::vector<std::string> builtinNames();
	class Session
	{
		std::shared_ptr<SessionImpl> p;
	public:
		Session();
		Out eval(const std::string & code, const std::string & module = "test", bool expandOnly = false, bool tracing = false);
		std::string output() const;            // everything written so far
		std::string takeOutput();              // output since the last takeOutput()
		void setInput(const std::string & text);
		std::string global(const std::string & name);        // canonical rendering of a global, "" if none
		std::vector<std::string> globalNames();          // non builtin names
		void onStep(const std::function<void()> & f);        // called before every evaluated call (as an attached debugger that never stops)
		SessionImpl * impl() { return p.get(); }
	};

	// Lisp::SaveEval
	struct SaveOut { bool foreign = false; std::string what; bool isError = false; std::string repr, text, output; };
	SaveOut saveEval(const std::string & code, const std::string & module = "main", bool verbose = false);

	struct Tok { int type; std::string value; long start, stop, line; std::string err; };
	// token types as in LispTokenType, rendered by name
	std::string tokTypeName(int type);
	struct TokOut { Out::Kind kind = Out::Value; std::string msg; std::vector<Tok> toks; };
	TokOut tokenize(const std::string & code, size_t offset);
	Out parse(const std::string & code, size_t offset);   // repr = canonical rendering of the AST

	struct CliOut { bool foreign = false; bool lispError = false; std::string what; std::string output; };
	CliOut cli(const std::vector<std::string> & args, const std::string & input);

	// debugger
	struct DbgOut { bool foreign = false; bool lispError = false; std::string what; std::string result; std::string output; };
	DbgOut debugLoop(const std::string & script, const std::string & module, const std::string & input);
	// interactive loop on a fresh environment (REPL), commands in input
	DbgOut replLoop(const std::string & input);
	std::string versionString();
}
