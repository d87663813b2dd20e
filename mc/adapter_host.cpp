// What an embedding application does with values, variables and functions.
#include "adapter.h"
#include "adapter_host.h"
#include "Lisp.h"
#include "Environment.h"
#include "Scope.h"
#include "Exception.h"
#include "cstypes.h"
#include <cstdio>
#undef var
using namespace CppLisp;
namespace fx
{
	typedef std::shared_ptr<object> OP;
	std::string reprOf(const std::shared_ptr<object> & o);      // adapter.cpp
	std::shared_ptr<LispScope> scopeOf(Session & s);
	std::shared_ptr<TextWriter> outOf(Session & s);
	std::shared_ptr<TextReader> inOf(Session & s);
	static std::string D(double d) { char b[64]; snprintf(b, sizeof b, "d%.15g", d); return b; }
	static std::string B(bool b) { return b ? "#t" : "#f"; }
	static std::string S(const std::string & s) { return "\"" + s + "\""; }
	static std::string V(const LispVariant & v) { return reprOf(std::make_shared<object>(v)); }
	template <class F> static std::string guard(F f)
	{
		try { return f(); }
		catch (LispExceptionBase &) { return "ERR"; }
		catch (std::exception & e) { return std::string("FOREIGN ") + e.what(); }
		catch (...) { return "FOREIGN"; }
	}
	struct HostValue::Impl { std::shared_ptr<LispVariant> v; };
	HostValue::HostValue() : p(std::make_shared<Impl>()) {}
	bool HostValue::valid() const { return (bool)p->v; }
	std::string HostValue::repr() const { return p->v ? V(*p->v) : "<null>"; }
	HostValue evalHost(Session & s, const std::string & code, std::string & err)
	{
		HostValue h;
		err = guard([&]() { h.p->v = Lisp::Eval(code, scopeOf(s), "host", false, outOf(s), inOf(s)); return std::string(); });
		return h;
	}
	HostValue evalThrough(Session & s, const std::string & code)
	{
		HostValue h;
		h.p->v = Lisp::Eval(code, scopeOf(s), "host", false, outOf(s), inOf(s));
		return h;
	}
	HostValue evalDefault(const std::string & code, std::string & err)
	{
		HostValue h;
		err = guard([&]() { h.p->v = Lisp::Eval(code); return std::string(); });
		return h;
	}
	static OP raw(const HostSpec & h)
	{
		switch (h.kind)
		{
			case 'b': return std::make_shared<object>(h.i != 0);
			case 'i': return std::make_shared<object>(h.i);
			case 'd': return std::make_shared<object>(h.d);
			case 's': return std::make_shared<object>(h.s);
			case 'l': { IEnumerable<OP> l; for (auto & e : h.l) l.Add(std::make_shared<object>(LispVariant(raw(e)))); return std::make_shared<object>(l); }
			default: return std::make_shared<object>();
		}
	}
	HostValue make(const HostSpec & h)
	{
		HostValue r;
		if (h.kind == 'n') r.p->v = std::make_shared<LispVariant>(LispType::_Nil);
		else if (h.kind == 'y') r.p->v = std::make_shared<LispVariant>(LispType::_Symbol, std::make_shared<object>(h.s));
		else r.p->v = std::make_shared<LispVariant>(raw(h));
		return r;
	}
	std::string unary(const std::string & op, HostValue & h)
	{
		LispVariant & v = *h.p->v;
		return guard([&]() -> std::string
		{
			if (op == "ToBool") return B(v.ToBool());
			if (op == "ToInt") return std::to_string(v.ToInt());
			if (op == "ToDouble") return D(v.ToDouble());
			if (op == "ToString") return S(v.ToString());
			if (op == "StringValue") return S(v.StringValue());
			if (op == "BoolValue") return B(v.BoolValue());
			if (op == "IntValue") return std::to_string(v.IntValue());
			if (op == "DoubleValue") return D(v.DoubleValue());
			if (op == "ListValue") return V(LispVariant(std::make_shared<object>(*v.ListValue())));
			if (op == "ListValueRef") { std::string r; for (auto & e : v.ListValueRef()) r += reprOf(e) + ","; return r; }
			if (op == "FunctionValue") { v.FunctionValue(); return "fn"; }
			if (op == "ToStringCompiler") return S(v.ToStringCompiler());
			if (op == "ToStringDebugger") return S(v.ToStringDebugger());
			if (op == "bool") return B((bool)v);
			if (op == "int") return std::to_string((int)v);
			if (op == "double") return D((double)v);
			if (op == "copy") return V(LispVariant(v));
			if (op == "wrap") return V(LispVariant(std::make_shared<object>(v)));
			if (op == "twice") return V(LispVariant(std::make_shared<object>(LispVariant(std::make_shared<object>(v)))));
			if (op == "is") return std::string() + (v.IsNil() ? "N" : "") + (v.IsError() ? "E" : "") + (v.IsUndefined() ? "U" : "") + (v.IsString() ? "S" : "") + (v.IsDouble() ? "D" : "") + (v.IsInt() ? "I" : "") + (v.IsNumber() ? "#" : "") + (v.IsBool() ? "B" : "") + (v.IsList() ? "L" : "") + (v.IsFunction() ? "F" : "") + (v.IsSymbol() ? "Y" : "") + (v.IsNativeObject() ? "O" : "") + (v.IsLValue() ? "V" : "");
			if (op == "TypeString") return v.TypeString();
			return "?";
		});
	}
	std::string binary(const std::string & op, HostValue & x, HostValue & y)
	{
		LispVariant & a = *x.p->v; LispVariant & b = *y.p->v;
		auto sign = [](int c) { return std::string(c < 0 ? "<" : c > 0 ? ">" : "="); };
		return guard([&]() -> std::string
		{
			if (op == "+") return V(a + b);
			if (op == "-") return V(a - b);
			if (op == "*") return V(a * b);
			if (op == "/") return V(a / b);
			if (op == "%") return V(a % b);
			if (op == "<") return B(a < b);
			if (op == "<=") return B(a <= b);
			if (op == ">") return B(a > b);
			if (op == ">=") return B(a >= b);
			if (op == "==") return B(a == b);
			if (op == "!=") return B(a != b);
			if (op == "EqualOp") return B(LispVariant::EqualOp(a, b));
			if (op == "Equals") return B(a.Equals(std::make_shared<object>(b)));
			if (op == "SymbolCompare") return B(a.SymbolCompare(std::make_shared<object>(b)));
			if (op == "CompareTo object") return sign(a.CompareTo(std::make_shared<object>(b)));
			if (op == "CompareTo variant") return sign(a.CompareTo(y.p->v));
			if (op == "KeyLess") return B(LispVariant::KeyLess(a, b));
			if (op == "Add") { a.Add(std::make_shared<object>(b)); return "added"; }
			return "?";
		});
	}
	void setVariable(Session & s, const std::string & name, const HostValue & v) { (*scopeOf(s))[name] = std::make_shared<object>(*v.p->v); }
	HostValue variable(Session & s, const std::string & name)
	{
		HostValue h;
		auto it = scopeOf(s)->find(name);
		if (it != scopeOf(s)->end() && it->second) h.p->v = it->second->ToLispVariant();
		return h;
	}
	void setFunction(Session & s, const std::string & name, const std::function<HostValue(std::vector<HostValue> &)> & f)
	{
		LispFunctionWrapper w;
		w.Function = [f](const std::vector<OP> & args, std::shared_ptr<LispScope>) -> std::shared_ptr<LispVariant>
		{
			std::vector<HostValue> a(args.size());
			for (size_t i = 0; i < args.size(); ++i) { a[i] = HostValue(); a[i].p->v = std::make_shared<LispVariant>(args[i]); }
			return f(a).p->v;
		};
		w.Signature = "(host ...)";
		(*scopeOf(s))[name] = std::make_shared<object>(LispVariant(std::make_shared<object>(w)));
	}
	void throwLisp(const std::string & msg) { throw LispException(msg, 0); }
}
