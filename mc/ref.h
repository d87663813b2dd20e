// Reference model of the language: an independent, deliberately boring interpreter.
// It has its own scanner, reader and evaluator and shares no code with fuel.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref
{
	struct Err { std::string why; };       // the program has to fail with a language error
	struct Unspecified { std::string why; };// the language says nothing (the case is not judged)
	struct Diverges {};                     // step budget of the model exhausted

	// ---- scanner -----------------------------------------------------------------------------
	struct Tok
	{
		enum T { Nil, Sym, Open, Close, Int, Dbl, Str, Quote, Quasi, Unq, UnqSpl, True, False, Comment } t;
		std::string s; long i = 0; double d = 0;
		long start = 0, stop = 0, line = 0;
		static const char * name(T t);
	};
	std::vector<Tok> scan(const std::string & code, long offset = 0, bool * lenient = nullptr);

	// ---- values ------------------------------------------------------------------------------
	struct Val; typedef std::shared_ptr<Val> P;
	typedef std::vector<P> L;
	struct Env; typedef std::shared_ptr<Env> E;
	struct Interp;
	struct KeyLess { bool operator()(const P & a, const P & b) const; };
	typedef std::map<P, P, KeyLess> Dict;
	struct Fun
	{
		std::string name, sig, doc, module;
		bool special = false, builtin = false, inExpand = false;
		std::function<P(Interp &, std::vector<P> &, E)> call;
	};
	struct Val
	{
		enum K { Undef, Nil, Bool, Int, Dbl, Str, List, Fn, Sym, Native, LVal, Raw } k = Undef;
		bool b = false; int i = 0; double d = 0; std::string s;
		std::shared_ptr<L> l; std::shared_ptr<Fun> f; std::shared_ptr<Dict> m;
		std::function<void(P)> set;
		int flag = 0;                        // 1 unquote, 2 splicing
		std::shared_ptr<Tok> tok;
	};
	P mk(Val::K k); P mkInt(int); P mkBool(bool); P mkDbl(double); P mkStr(const std::string &); P mkSym(const std::string &);
	P mkList(const L &); P mkRaw(const L &);
	P wrap(const P & v);                     // raw list -> list value sharing the elements
	std::string repr(const P & v);           // same rules as fx::Out::repr
	std::string text(const P & v);           // the value printed
	bool equal(const P & a, const P & b);    // ==

	P read(const std::string & code, long offset = 0);   // whole program text -> raw list

	struct Macro { L formals, expr; bool compileTime = false; };
	struct Env
	{
		std::map<std::string, P> vars;
		E closure;
		bool inReturn = false, needsL = false, inEval = false;
		bool hasArgs = false; L args;
		std::string userSig; bool trace = false, hasTrace = false; std::string traceBuf;
		bool global = false;
		// for the debugger: name of the function, module of the code, calling scope and current call
		std::string name, module; E previous; std::shared_ptr<Tok> cur;
		std::string defName;
		int level() const { int n = 0; const Env * e = this; do { e = e->previous.get(); ++n; } while (e); return n; }
	};
	struct Res
	{
		enum { Value, Error, Unspec, Diverge } kind = Value;
		std::string repr, text, why;
		std::string brief() const { return kind == Value ? repr : kind == Error ? "ERR" : kind == Unspec ? "UNSPEC" : "DIVERGE"; }
	};
	struct Interp
	{
		E global;
		std::map<std::string, Macro> macros;
		std::string out;
		std::string input; size_t inPos = 0;
		std::function<std::string()> onReadLine;               // where readline reads from instead of input
		// files and modules: virtual file system (path relative to the working directory -> content)
		std::map<std::string, std::string> files; std::vector<std::string> dirs, readOnly;
		std::string libPath, fuelPath; bool hasFuelPath = false;
		std::map<std::string, E> modules;
		static std::string norm(const std::string & path);
		bool isFile(const std::string & path) { return files.count(norm(path)) > 0; }
		long steps = 0, maxSteps = 20000, depth = 0, maxDepth = 60;
		long totalSteps = 0;
		explicit Interp(bool library = false);
		void library();                                        // the standard library, imported
		~Interp();
		Interp(const Interp &) = delete;
		Res eval(const std::string & code, bool expandOnly = false, const std::string & module = "test");
		std::function<void(const L & call, E env)> onCall;     // before every call, its arguments are evaluated
		bool tracing = false;                                  // every call is announced
		std::function<void(E env)> onBreak;                    // (break)
		std::function<void(const P & body, E env)> onError;    // an error leaves the body of a function
		std::string stackText(E env, int current);             // call stack as it is shown
		std::string varsText(E env);                           // variables of a scope as they are shown
		std::string takeOutput() { std::string r; r.swap(out); return r; }
		std::string var(const std::string & name);           // "" if none
		std::vector<std::string> names();                    // user defined globals
		std::string stateKey();                              // canonical form of the session state
		// parts
		P evalProgram(const std::string & code, E env, bool expandOnly, const std::string & module);
		P evalAst(P ast, E env);
		P evalValue(P ast, E env);                           // null -> undefined
		P resolve(const P & sym, E env);
		P expand(P ast, E env, bool & any);
		P expandAll(P ast, E env);
		L substMacro(const L & formals, const L & call, const L & expr, E env, bool & any);
		P callFn(const P & f, std::vector<P> & args, E env);
		void def(const std::string & name, bool special, std::function<P(Interp &, std::vector<P> &, E)> fn);
	};
	// null results and undefined are the same observable outcome of an evaluation
	std::string norm(const std::string & repr);
}
