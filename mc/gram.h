// Exhaustive enumeration of the words of a small grammar.
// A production is a text with placeholders $X (X an upper case letter: nonterminal); its size is 1
// (or 0 if it is marked by a leading '0') plus the sizes of the nonterminals.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace gram
{
	struct G
	{
		std::map<char, std::vector<std::string>> prods;
		std::map<std::pair<char, int>, std::vector<std::string>> memo;
		G & add(char nt, const std::vector<std::string> & p) { auto & v = prods[nt]; v.insert(v.end(), p.begin(), p.end()); return *this; }
		const std::vector<std::string> & words(char nt, int size)
		{
			auto key = std::make_pair(nt, size);
			auto it = memo.find(key);
			if (it != memo.end()) return it->second;
			std::vector<std::string> r;
			each(nt, size, [&](const std::string & s) { r.push_back(s); });
			return memo[key] = r;
		}
		// all words of exactly this size
		void each(char nt, int size, const std::function<void(const std::string &)> & f)
		{
			for (auto & p : prods[nt])
			{
				int own = 1; std::string t = p;
				if (!t.empty() && t[0] == '0' && t.size() > 1 && t[1] == ':') { own = 0; t = t.substr(2); }
				std::vector<char> nts; std::vector<std::string> lit(1);
				for (size_t i = 0; i < t.size(); ++i)
				{
					if (t[i] == '$' && i + 1 < t.size() && t[i + 1] >= 'A' && t[i + 1] <= 'Z') { nts.push_back(t[++i]); lit.emplace_back(); }
					else lit.back() += t[i];
				}
				int rest = size - own;
				if (nts.empty()) { if (rest == 0) f(lit[0]); continue; }
				if (rest < (int)nts.size()) continue;
				expand(nts, lit, 0, rest, lit[0], f);
			}
		}
		void upto(char nt, int size, const std::function<void(const std::string &)> & f)
		{
			for (int s = 1; s <= size; ++s) each(nt, s, f);
		}
	private:
		void expand(const std::vector<char> & nts, const std::vector<std::string> & lit, size_t i, int rest, const std::string & sofar, const std::function<void(const std::string &)> & f)
		{
			bool lastOne = i + 1 == nts.size();
			int lo = lastOne ? rest : 1, hi = rest - (int)(nts.size() - i - 1);
			for (int k = lo; k <= hi; ++k)
			{
				const std::vector<std::string> ws = words(nts[i], k);
				for (auto & w : ws)
				{
					std::string s = sofar + w + lit[i + 1];
					if (lastOne) f(s); else expand(nts, lit, i + 1, rest - k, s, f);
				}
			}
		}
	};
}
