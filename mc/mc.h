// Exhaustive-exploration framework.
//
// A check is a function explore(W&) that walks its bounded space in a fixed order.  The walk is
// repeated in N worker processes, each of which executes the items of its shard; an item that
// kills its worker (signal, sanitizer report, failed container precondition) or exceeds the time
// limit is reported as a violation of that item and the walk resumes behind it.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
	struct Shared;
	class W
	{
	public:
		// true if the next item belongs to this worker (always advances the item counter)
		bool mine();
		// execute the current item: describe it, run it; fn returns "" or what went wrong
		void run(const std::string & desc, const std::function<std::string()> & fn);
		// convenience
		void item(const std::function<std::string()> & desc, const std::function<std::string()> & fn)
		{
			if (mine()) run(desc(), fn);
		}
		void item(const std::string & desc, const std::function<std::string()> & fn)
		{
			if (mine()) run(desc, fn);
		}
		// coverage: a model state was reached / n model steps were taken / n executions compared
		void state(uint64_t h);
		void state(const std::string & s) { state(hash(s)); }
		void steps(uint64_t n);
		void traces(uint64_t n);
		// a distinct observable outcome (coverage of the implementation's behaviour)
		void outcome(const std::string & s);
		void tag(const std::string & s);       // named coverage class, counted in the evidence
		bool thorough() const;
		bool replaying() const;
		int pass = 0;                           // which pass over the items (--pass)
		static uint64_t hash(const std::string & s);
		// private parts
		Shared * sh = nullptr;
		int shard = 0, nshards = 1;
		uint64_t idx = 0, resume = 0, only = UINT64_MAX;
		bool first = true, isThorough = false;
		uint64_t executed = 0, from = 0, confirm = UINT64_MAX, until = UINT64_MAX;
	};

	struct Check
	{
		const char * id;
		const char * space;        // what is enumerated (goes into the evidence)
		const char * oracle;       // what it is compared with
		std::vector<std::string> assumptions;
		void (*explore)(W &);
		double itemTimeout = 10;   // seconds; exceeding it is reported as a hang
		uint64_t restartEvery = 200000;
	};
	int main(int argc, char ** argv, const Check & c);

	// odometer over digits [0,base)^len
	struct Odo
	{
		std::vector<int> d; int base;
		Odo(int len, int b) : d(len, 0), base(b) {}
		bool next()
		{
			for (int i = (int)d.size() - 1; i >= 0; --i)
			{
				if (++d[i] < base) return true;
				d[i] = 0;
			}
			return false;
		}
	};
	std::string q(const std::string & s);      // printable form of arbitrary text
}
