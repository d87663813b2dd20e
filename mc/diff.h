// Lock-step execution of a history (a list of programs evaluated one after another in one session)
// on the implementation and on the reference model.
#pragma once
#include "mc.h"
#include "adapter.h"
#include "ref.h"
#include <functional>
#include <string>
#include <vector>

namespace diff
{
	struct Opt
	{
		bool globals = true;        // compare all user defined globals after every step
		bool text = true;           // compare the printed form of the result
		bool outputOnError = true;  // compare output of failing steps
		std::string input;          // what readline reads
		bool value = true;          // compare the value of the program
	};
	// result: "" or the first disagreement.
	std::string history(mc::W & w, const std::vector<std::string> & progs, const Opt & o = Opt());
	std::string program(mc::W & w, const std::string & prog, const Opt & o = Opt());
	// one step of a running pair; judged=false if the language does not specify the outcome (the
	// implementation is not even run then)
	struct Pair
	{
		fx::Session s; ref::Interp m;
		std::string step(mc::W & w, const std::string & prog, const Opt & o, bool & judged, bool expandOnly = false);
		ref::Res last; fx::Out lastOut; std::string lastOutput;
	};
	std::string join(const std::vector<std::string> & v, const char * sep);
}
