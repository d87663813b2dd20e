// What an embedding application does with values, variables and functions.
#pragma once
#include "adapter.h"
namespace fx
{
	class HostValue
	{
	public:
		struct Impl; std::shared_ptr<Impl> p;
		HostValue();
		bool valid() const; std::string repr() const;
	};
	struct HostSpec { char kind; int i; double d; std::string s; std::vector<HostSpec> l; };   // b i d s l n(il) y(symbol)
	HostValue make(const HostSpec & h);
	HostValue evalHost(Session & s, const std::string & code, std::string & err);
	HostValue evalThrough(Session & s, const std::string & code);       // errors pass through
	HostValue evalDefault(const std::string & code, std::string & err);  // Lisp::Eval(script)
	std::string unary(const std::string & op, HostValue & v);       // "ERR": a language error
	std::string binary(const std::string & op, HostValue & a, HostValue & b);
	void setVariable(Session & s, const std::string & name, const HostValue & v);
	HostValue variable(Session & s, const std::string & name);
	void setFunction(Session & s, const std::string & name, const std::function<HostValue(std::vector<HostValue> &)> & f);
	void throwLisp(const std::string & msg);
}
