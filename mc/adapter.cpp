#include "adapter.h"
#include "Lisp.h"
#include "Tokenizer.h"
#include "Parser.h"
#include "Environment.h"
#include "Scope.h"
#include "Exception.h"
#include "fuel.h"
#include "Debugger.h"
#include <cstdio>
#include <set>
#include <sstream>
#undef var

using namespace CppLisp;

namespace fx
{
	typedef std::shared_ptr<object> OP;
	static std::string esc(const std::string & s)
	{
		std::string r = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else if (c == '\r') r += "\\r";
			else r += (char)c;
		}
		return r + "\"";
	}
	static std::string dbl(double d)
	{
		char b[64]; snprintf(b, sizeof b, "d%.15g", d);
		return b;
	}
	static thread_local long budget = 0;                    // guards the rendering of containers that contain themselves
	static std::string reprObj(const OP & o, int depth);
	static std::string reprList(const IEnumerable<OP> & l, int depth)
	{
		std::string r = "(";
		bool first = true;
		for (const OP & e : l)
		{
			if (!first) r += " ";
			first = false;
			r += reprObj(e, depth + 1);
		}
		return r + ")";
	}
	static std::string reprVar(const LispVariant & v, int depth)
	{
		if (depth > 60 || --budget < 0) return "<deep>";
		switch (v.Type)
		{
			case LispType::_Undefined: return "<undef>";
			case LispType::_Nil: return "NIL";
			case LispType::_Bool: return v.BoolValue() ? "#t" : "#f";
			case LispType::_Int: return std::to_string(v.IntValue());
			case LispType::_Double: return dbl(v.DoubleValue());
			case LispType::_String: return v.Value ? esc(v.Value->ToString()) : "<nullstr>";
			case LispType::_Symbol: return ":" + (std::string)(v.Value ? v.Value->ToString() : CppLisp::string("<nullsym>"));
			case LispType::_List: return v.Value ? reprList(v.ListValueRef(), depth) : std::string("<nulllist>");
			case LispType::_Function: return "#<fn>";
			case LispType::_LValue: return "#<lvalue>";
			case LispType::_Error: return "#<error " + esc(v.Value->ToString()) + ">";
			case LispType::_NativeObject:
			{
				if (v.Value && v.Value->IsDictionary())
				{
					const Dictionary<LispVariant, OP> & d = static_cast<const object &>(*v.Value).ToDictionary();
					std::multiset<std::string> items;
					for (auto & kv : d) items.insert(reprVar(kv.first, depth + 1) + ":" + reprObj(kv.second, depth + 1));
					std::string r = "{";
					for (auto & s : items) { if (r.size() > 1) r += ","; r += s; }
					return r + "}";
				}
				return "#<native>";
			}
			default: return "?type" + std::to_string((int)v.Type);
		}
	}
	static std::string reprObj(const OP & o, int depth)
	{
		if (o.get() == 0) return "<nullobj>";
		if (depth > 60 || budget < 0) return "<deep>";
		if (o->IsLispVariant()) return reprVar(o->ToLispVariantRef(), depth);
		if (o->IsList() || o->IsIEnumerableOfObject()) return reprList(o->ToListRef(), depth);
		if (o->IsInt()) return std::to_string((int)(*o));
		if (o->IsDouble()) return dbl((double)(*o));
		if (o->IsBool()) return (bool)(*o) ? "#t" : "#f";
		if (o->IsString()) return esc(o->ToString());
		if (o->IsLispFunctionWrapper()) return "#<fn>";
		if (o->IsDictionary()) return reprVar(LispVariant(LispType::_NativeObject, o), depth);
		return "#<" + o->GetTypeName() + ">";
	}

	static int dataInt(LispException & e, const char * k)
	{
		auto it = e.Data.find(k);
		if (it == e.Data.end() || !it->second) return -2;
		if (!it->second->IsInt()) return -3;
		return (int)*(it->second);
	}
	static std::string dataStr(LispException & e, const char * k)
	{
		auto it = e.Data.find(k);
		if (it == e.Data.end() || !it->second) return "<none>";
		return it->second->ToString();
	}
	static void fillValue(Out & o, const std::shared_ptr<LispVariant> & v)
	{
		o.kind = Out::Value;
		if (v.get() == 0) { o.repr = "<null>"; o.text = "<null>"; o.type = "<null>"; return; }
		budget = 200000;
		o.repr = reprVar(*v, 0);
		o.text = o.repr.find("<deep>") == std::string::npos ? (std::string)v->ToString() : std::string("<deep>");
		o.type = v->TypeString();
	}
	template <class F> static Out guarded(F f)
	{
		Out o;
		try { f(o); }
		catch (LispException & e)
		{
			o = Out();
			o.kind = Out::LispError;
			o.msg = e.Message;
			o.line = dataInt(e, "LineNo"); o.start = dataInt(e, "StartPos"); o.stop = dataInt(e, "StopPos");
			o.module = dataStr(e, "ModuleName"); o.stack = dataStr(e, "StackInfo");
		}
		catch (LispExceptionBase & e) { o = Out(); o.kind = Out::LispErrorBase; o.msg = e.Message; }
		catch (std::exception & e) { o = Out(); o.kind = Out::Foreign; o.msg = e.what(); }
		catch (...) { o = Out(); o.kind = Out::Foreign; o.msg = "unknown exception"; }
		return o;
	}

	class StepHook : public ILispDebugger
	{
	public:
		std::function<void()> fn;
		virtual ~StepHook() {}
		void InteractiveLoop(std::shared_ptr<LispScope>, std::shared_ptr<IEnumerable<OP>>, bool, bool, std::shared_ptr<TextWriter>, std::shared_ptr<TextReader>) override {}
		bool NeedsBreak(std::shared_ptr<LispScope>, LispBreakpointPosition) override { fn(); return false; }
		std::shared_ptr<LispVariant> DebuggerLoop(const CppLisp::string &, const CppLisp::string &, bool) override { return std::shared_ptr<LispVariant>(); }
		void SetInputOutputStreams(std::shared_ptr<TextWriter>, std::shared_ptr<TextReader>) override {}
	};
	class SessionImpl
	{
	public:
		std::shared_ptr<LispScope> scope;
		std::shared_ptr<TextWriter> out;
		std::shared_ptr<TextReader> in;
		size_t taken = 0;
		std::shared_ptr<StepHook> hook;
		// a global function refers to the scope which refers to the function: break the circle
		~SessionImpl() { if (scope) scope->clear(); }
	};
	Session::Session() : p(std::make_shared<SessionImpl>())
	{
		p->scope = LispEnvironment::CreateDefaultScope();
		p->out = std::make_shared<TextWriter>(true);
		p->in = std::make_shared<TextReader>("\n");
	}
	void Session::onStep(const std::function<void()> & f)
	{
		p->hook = std::make_shared<StepHook>();
		p->hook->fn = f;
		p->scope->Debugger = p->hook.get();
	}
	Out Session::eval(const std::string & code, const std::string & module, bool expandOnly, bool tracing)
	{
		return guarded([&](Out & o)
		{
			auto r = Lisp::Eval(code, p->scope, module, tracing, p->out, p->in, expandOnly);
			fillValue(o, r);
		});
	}
	std::string reprOf(const OP & o) { budget = 200000; return reprObj(o, 0); }
	std::shared_ptr<LispScope> scopeOf(Session & s) { return s.impl()->scope; }
	std::shared_ptr<TextWriter> outOf(Session & s) { return s.impl()->out; }
	std::shared_ptr<TextReader> inOf(Session & s) { return s.impl()->in; }
	std::string Session::output() const { return p->out->GetContent(); }
	std::string Session::takeOutput()
	{
		std::string all = p->out->GetContent();
		std::string r = all.substr(p->taken);
		p->taken = all.size();
		return r;
	}
	void Session::setInput(const std::string & text) { p->in = std::make_shared<TextReader>(text.empty() ? std::string("\n") : text); }
	std::string Session::global(const std::string & name)
	{
		auto it = p->scope->find(name);
		if (it == p->scope->end()) return "";
		budget = 200000;
		return reprObj(it->second, 0);
	}
	std::vector<std::string> builtinNames()
	{
		std::vector<std::string> r;
		auto s = LispEnvironment::CreateDefaultScope();
		for (auto & kv : *s) r.push_back(kv.first);
		return r;
	}
	std::vector<std::string> Session::globalNames()
	{
		static const std::set<std::string> builtin = []()
		{
			std::set<std::string> b;
			auto s = LispEnvironment::CreateDefaultScope();
			for (auto & kv : *s) b.insert(kv.first);
			return b;
		}();
		std::vector<std::string> r;
		for (auto & kv : *p->scope) if (!builtin.count(kv.first)) r.push_back(kv.first);
		return r;
	}
	SaveOut saveEval(const std::string & code, const std::string & module, bool verbose)
	{
		SaveOut r;
		auto out = std::make_shared<TextWriter>(true);
		auto in = std::make_shared<TextReader>("\n");
		budget = 200000;
		try
		{
			auto v = Lisp::SaveEval(code, module, verbose, false, out, in);
			if (v.get() == 0) { r.repr = "<null>"; }
			else { r.isError = v->IsError(); r.repr = reprVar(*v, 0); r.text = v->ToString(); }
		}
		catch (std::exception & e) { r.foreign = true; r.what = e.what(); }
		catch (LispExceptionBase & e) { r.foreign = true; r.what = "LispException:" + e.Message; }
		catch (...) { r.foreign = true; r.what = "unknown"; }
		r.output = out->GetContent();
		return r;
	}

	std::string tokTypeName(int t)
	{
		switch ((LispTokenType)t)
		{
			case Nil: return "nil";
			case Symbol: return "sym";
			case ListStart: return "(";
			case ListEnd: return ")";
			case Int: return "int";
			case Double: return "dbl";
			case String: return "str";
			case Quote: return "'";
			case QuasiQuote: return "`";
			case UnQuote: return ",";
			case UnQuoteSplicing: return ",@";
			case True: return "#t";
			case False: return "#f";
			case Comment: return ";";
			default: return "?" + std::to_string(t);
		}
	}
	TokOut tokenize(const std::string & code, size_t offset)
	{
		TokOut r;
		Out o = guarded([&](Out &)
		{
			budget = 200000;
			auto toks = LispTokenizer::Tokenize(code, offset);
			for (auto & t : toks)
			{
				Tok k;
				k.type = (int)t->Type;
				if (t->Value.get() == 0) k.value = "<null>";
				else if (t->Type == Nil) k.value = "NIL";
				else if (t->Type == Int || t->Type == Double || t->Type == True || t->Type == False) k.value = reprObj(t->Value, 0);
				else k.value = t->Value->ToString();
				k.start = (long)t->StartPos; k.stop = (long)t->StopPos; k.line = (long)t->LineNo;
				r.toks.push_back(k);
			}
		});
		r.kind = o.kind; r.msg = o.msg;
		return r;
	}
	Out parse(const std::string & code, size_t offset)
	{
		return guarded([&](Out & o)
		{
			budget = 200000;
			auto ast = LispParser::Parse(code, offset, std::shared_ptr<LispScope>());
			o.repr = reprObj(ast, 0);
		});
	}
	CliOut cli(const std::vector<std::string> & args, const std::string & input)
	{
		CliOut r;
		auto out = std::make_shared<TextWriter>(true);
		auto in = std::make_shared<TextReader>(input.empty() ? std::string("\n") : input);
		std::vector<CppLisp::string> a;
		for (auto & s : args) a.push_back(CppLisp::string(s));
		try { Fuel::MainExtended(a, out, in); }
		catch (LispExceptionBase & e) { r.lispError = true; r.what = e.Message; }
		catch (std::exception & e) { r.foreign = true; r.what = e.what(); }
		catch (...) { r.foreign = true; r.what = "unknown"; }
		r.output = out->GetContent();
		return r;
	}
	DbgOut debugLoop(const std::string & script, const std::string & module, const std::string & input)
	{
		DbgOut r;
		auto out = std::make_shared<TextWriter>(true);
		auto in = std::make_shared<TextReader>(input.empty() ? std::string("\n") : input);
		ILispDebugger * d = create_debugger();
		d->SetInputOutputStreams(out, in);
		budget = 200000;
		try
		{
			auto v = d->DebuggerLoop(script, module, false);
			r.result = v.get() == 0 ? std::string("<null>") : reprVar(*v, 0);
		}
		catch (LispExceptionBase & e) { r.lispError = true; r.what = e.Message; }
		catch (std::exception & e) { r.foreign = true; r.what = e.what(); }
		catch (...) { r.foreign = true; r.what = "unknown"; }
		r.output = out->GetContent();
		delete static_cast<LispDebugger *>(d);
		return r;
	}
	DbgOut replLoop(const std::string & input)
	{
		DbgOut r;
		auto out = std::make_shared<TextWriter>(true);
		auto in = std::make_shared<TextReader>(input.empty() ? std::string("\n") : input);
		ILispDebugger * d = create_debugger();
		d->SetInputOutputStreams(out, in);
		try
		{
			LispDebugger::InteractiveLoop(static_cast<LispDebugger *>(d), std::shared_ptr<LispScope>(), true, false, out, in);
		}
		catch (LispExceptionBase & e) { r.lispError = true; r.what = e.Message; }
		catch (std::exception & e) { r.foreign = true; r.what = e.what(); }
		catch (...) { r.foreign = true; r.what = "unknown"; }
		r.output = out->GetContent();
		delete static_cast<LispDebugger *>(d);
		return r;
	}
	std::string versionString() { return Lisp::Version; }
}
