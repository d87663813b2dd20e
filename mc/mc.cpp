#include "mc.h"
#include "scratch.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{
	static const size_t SETBITS = 23;                     // 8M slots each
	static const size_t DESC = 16384, NSAMPLE = 12, NTAG = 256;
	struct HSet
	{
		std::atomic<uint64_t> n;
		std::atomic<uint64_t> saturated;
		std::atomic<uint64_t> slot[1ull << SETBITS];
		void add(uint64_t h)
		{
			if (h == 0) h = 1;
			if (n.load(std::memory_order_relaxed) > (1ull << SETBITS) * 9 / 10) { saturated++; return; }
			uint64_t m = (1ull << SETBITS) - 1, i = (h * 0x9E3779B97F4A7C15ull) >> (64 - SETBITS);
			for (;;)
			{
				uint64_t c = slot[i].load(std::memory_order_relaxed);
				if (c == h) return;
				if (c == 0)
				{
					if (slot[i].compare_exchange_strong(c, h)) { n++; return; }
					if (c == h) return;
				}
				i = (i + 1) & m;
			}
		}
	};
	struct WorkerSlot
	{
		std::atomic<uint64_t> idx;
		std::atomic<int> inItem;
		std::atomic<double> started;
		char desc[DESC];
	};
	struct Tag { std::atomic<uint64_t> n; char name[64]; };
	struct Shared
	{
		std::atomic<uint64_t> evaluations, steps, traces, nviol, total, nsample;
		std::atomic<int> stop;
		std::atomic<int> lock;
		char sample[NSAMPLE][1024];
		Tag tags[NTAG];
		WorkerSlot slots[64];
		HSet states, outcomes;
	};
	static double now()
	{
		return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
	}
	static int g_violfd = -1;
	static bool g_limitMemory = true;

	static std::string jesc(const std::string & s)
	{
		std::string r;
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else if (c == '\r') r += "\\r";
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += (char)c;
		}
		return r;
	}
	std::string q(const std::string & s) { return "\"" + jesc(s) + "\""; }

	uint64_t W::hash(const std::string & s)
	{
		uint64_t h = 1469598103934665603ull;
		for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
		h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
		return h;
	}
	void W::state(uint64_t h) { sh->states.add(h); }
	void W::steps(uint64_t n) { sh->steps += n; }
	void W::traces(uint64_t n) { sh->traces += n; }
	void W::outcome(const std::string & s) { sh->outcomes.add(hash(s)); }
	void W::tag(const std::string & s)
	{
		for (size_t i = 0; i < NTAG; ++i)
		{
			Tag & t = sh->tags[i];
			if (!t.name[0])
			{
				int z = 0;
				while (!sh->lock.compare_exchange_weak(z, 1)) z = 0;
				if (!t.name[0]) strncpy(t.name, s.c_str(), 63);
				sh->lock = 0;
			}
			if (strncmp(t.name, s.c_str(), 63) == 0) { t.n++; return; }
		}
	}
	bool W::thorough() const { return isThorough; }
	bool W::replaying() const { return only != UINT64_MAX; }
	bool W::mine()
	{
		if (first) first = false; else ++idx;
		if (only != UINT64_MAX) return idx == only;
		return idx % nshards == (uint64_t)shard && idx >= resume;
	}
	static void put(const std::string & line)
	{
		std::string s = line + "\n";
		ssize_t r = ::write(g_violfd, s.data(), s.size()); (void)r;
	}
	static std::string record(uint64_t idx, uint64_t shard, uint64_t nshards, uint64_t from, const std::string & desc, const std::string & what, const char * kind)
	{
		std::ostringstream o;
		o << "{\"index\": " << idx << ", \"shard\": " << shard << ", \"nshards\": " << nshards << ", \"from\": " << from << ", \"kind\": \"" << kind << "\", \"case\": \"" << jesc(desc)
			<< "\", \"what\": \"" << jesc(what) << "\"}";
		return o.str();
	}
	struct StopWalk {};
	static uint64_t g_restart;
	void W::run(const std::string & desc, const std::function<std::string()> & fn)
	{
		if (sh->stop.load(std::memory_order_relaxed)) throw StopWalk();
		if (idx > until) throw StopWalk();
		WorkerSlot & s = sh->slots[shard];
		s.idx = idx;
		size_t n = std::min(desc.size(), DESC - 1);
		memcpy(s.desc, desc.data(), n); s.desc[n] = 0;
		s.started = now();
		s.inItem = 1;
		std::string bad = fn();
		s.inItem = 0;
		if (confirm == idx) _exit(bad.empty() ? 0 : 1);
		sh->evaluations++;
		if (!bad.empty())
		{
			sh->nviol++;
			put(record(idx, shard, nshards, from, desc, bad, "mismatch"));
		}
		uint64_t e = sh->evaluations.load();
		if ((e & (e - 1)) == 0 && e >= 4)
		{
			uint64_t k = sh->nsample++;
			if (k < NSAMPLE) strncpy(sh->sample[k], desc.c_str(), 1023);
		}
		// leaked memory must not end the walk: start over in a fresh process when it grows
		if (g_restart != UINT64_MAX && executed % 256 == 255)
		{
			static int fd = open("/proc/self/statm", O_RDONLY);
			char b[128]; ssize_t k = pread(fd, b, sizeof b - 1, 0);
			long vm = 0, rss = 0;
			if (k > 0) { b[k] = 0; sscanf(b, "%ld %ld", &vm, &rss); }
			if (rss * 4096 > 1500l * 1024 * 1024) { s.idx = idx + 1; _exit(77); }
		}
		if (++executed >= g_restart)
		{
			s.idx = idx + 1;
			_exit(77);
		}
	}

	static pid_t spawn(const Check & c, Shared * sh, int shard, int n, uint64_t resume, bool thorough, const std::string & errfile,
		uint64_t confirm = UINT64_MAX, bool alone = false)
	{
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p) return p;
		int nul = open("/dev/null", O_RDWR);
		dup2(nul, 0); dup2(nul, 1);
		int ef = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(ef, 2);
		struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		if (g_limitMemory) { rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl); }
		W w; w.sh = sh; w.shard = shard; w.nshards = n; w.resume = resume; w.from = resume; w.isThorough = thorough;
		if (confirm != UINT64_MAX) { w.confirm = confirm; if (alone) w.only = confirm; g_restart = UINT64_MAX; }
		try { c.explore(w); }
		catch (StopWalk &) { _exit(78); }
		catch (std::exception & e) { fprintf(stderr, "harness exception: %s\n", e.what()); _exit(79); }
		sh->total = w.first ? 0 : w.idx + 1;
		_exit(0);
	}
	static std::string slurp(const std::string & f)
	{
		std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str();
	}
	// minimal extraction of a string field of a one-line JSON object we wrote ourselves
	static std::string field(const std::string & line, const std::string & key)
	{
		std::string k = "\"" + key + "\": ";
		size_t p = line.find(k);
		if (p == std::string::npos) { k = "\"" + key + "\":"; p = line.find(k); }
		if (p == std::string::npos) return "";
		p += k.size();
		if (line[p] != '"') { size_t e = line.find_first_of(",}", p); return line.substr(p, e - p); }
		std::string r;
		for (++p; p < line.size() && line[p] != '"'; ++p)
		{
			if (line[p] == '\\' && p + 1 < line.size()) { r += line[p]; ++p; }
			r += line[p];
		}
		return r;   // still escaped: comparable with jesc() output
	}

	// Executes item idx again in a fresh process: alone, or behind the items its worker had executed
	// before it.  True if it fails again.
	static bool again(const Check & c, Shared * sh, uint64_t idx, int shard, int n, uint64_t from, bool alone, bool thorough, const std::string & errfile, double limit)
	{
		sh->stop = 0;
		double t0 = now();
		WorkerSlot & s = sh->slots[shard];
		s.inItem = 0;
		pid_t p = spawn(c, sh, shard, n, from, thorough, errfile, idx, alone);
		for (;;)
		{
			int st; pid_t r = waitpid(p, &st, WNOHANG);
			if (r == p) return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
			double t = now();
			if (s.inItem && s.idx == idx && t - s.started > 4 * c.itemTimeout) { kill(p, SIGKILL); waitpid(p, &st, 0); return true; }
			if (t - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return true; }   // cannot tell: keep the report
			usleep(2000);
		}
	}

	int main(int argc, char ** argv, const Check & c)
	{
		std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
		std::string outdir = ".", evidence, replay, known, variant = "fast";
		double limit = 0; int n = 8; bool merge = false; long show = -1;
		if (const char * j = getenv("MC_JOBS")) n = atoi(j);
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i];
			auto val = [&]() { return std::string(argv[++i]); };
			if (a == "--tier") tier = val();
			else if (a == "--evidence") evidence = val();
			else if (a == "--outdir") outdir = val();
			else if (a == "--known") known = val();
			else if (a == "--replay") replay = val();
			else if (a == "--limit") limit = atof(val().c_str());
			else if (a == "--jobs") n = atoi(val().c_str());
			else if (a == "--variant") variant = val();
			else if (a == "--show") show = atol(val().c_str());
		}
		(void)merge;
		bool thorough = tier == "thorough";
		if (limit == 0) limit = thorough ? 800 : 600;
		g_restart = c.restartEvery;
		g_limitMemory = variant == "fast";
		Shared * sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (sh == MAP_FAILED) { perror("mmap"); return 3; }

		if (!replay.empty() || show >= 0)
		{
			// run exactly one item, in this process, with its output visible
			std::string line;
			uint64_t idx = show;
			if (!replay.empty())
			{
				line = slurp(replay);
				idx = strtoull(field(line, "index").c_str(), 0, 10);
				thorough = field(line, "tier") == "thorough";
			}
			W w; w.sh = sh; w.isThorough = thorough;
			g_violfd = 2;
			if (field(line, "mode") == "history")
			{
				g_restart = UINT64_MAX;
				w.shard = atoi(field(line, "shard").c_str()); w.nshards = atoi(field(line, "nshards").c_str());
				w.resume = w.from = strtoull(field(line, "from").c_str(), 0, 10);
				w.until = idx;
				try { c.explore(w); } catch (StopWalk &) {}
			}
			else { w.only = idx; c.explore(w); }
			if (w.shard) memcpy(sh->slots[0].desc, sh->slots[w.shard].desc, DESC);
			if (!line.empty() && jesc(sh->slots[0].desc) != field(line, "case").substr(0, DESC))
				fprintf(stderr, "note: item %llu is now %s\n", (unsigned long long)idx, q(sh->slots[0].desc).c_str());
			if (sh->nviol) { printf("\nREPRODUCED property=%s case=%s\n", c.id, q(sh->slots[0].desc).c_str()); return 1; }
			printf("\nnot reproduced: property=%s case=%s\n", c.id, q(sh->slots[0].desc).c_str());
			return 0;
		}

		double t0 = now();
		std::string base = outdir + "/" + c.id + "." + std::to_string(getpid());
		std::string violfile = base + ".viol";
		g_violfd = open(violfile.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
		if (g_violfd < 0) { perror(violfile.c_str()); return 3; }
		std::vector<pid_t> pid(n, 0);
		std::vector<int> crashes(n, 0);
		int alive = 0; bool timedout = false, stopped = false, harnessError = false;
		for (int i = 0; i < n; ++i) { pid[i] = spawn(c, sh, i, n, 0, thorough, base + ".err" + std::to_string(i)); alive++; }
		std::vector<char> done(n, 0);
		std::vector<uint64_t> fromIdx(n, 0);
		std::vector<char> hung(n, 0);
		std::vector<uint64_t> retry(n, UINT64_MAX);     // item that is run again alone with 4 times the limit
		uint64_t hangs = 0;
		uint64_t crashTotal = 0;
		while (alive > 0)
		{
			int st;
			pid_t p = waitpid(-1, &st, WNOHANG);
			if (p == 0)
			{
				usleep(10000);
				double t = now();
				if (t - t0 > limit && !timedout) { timedout = true; sh->stop = 1; }
				for (int i = 0; i < n; ++i)
				{
					WorkerSlot & s = sh->slots[i];
					if (pid[i] > 0 && s.inItem && !hung[i] && t - s.started > c.itemTimeout * (retry[i] == s.idx ? 4 : 1)) { hung[i] = 1; kill(pid[i], SIGKILL); }
				}
				if (sh->nviol + crashTotal > 400) { sh->stop = 1; stopped = true; }
				continue;
			}
			if (p < 0) break;
			int i = 0;
			for (; i < n; ++i) if (pid[i] == p) break;
			if (i == n) continue;
			pid[i] = 0; alive--;
			WorkerSlot & s = sh->slots[i];
			std::string errf = base + ".err" + std::to_string(i);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { done[i] = 1; continue; }
			if (WIFEXITED(st) && WEXITSTATUS(st) == 78) continue;
			uint64_t next = s.idx;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {}
			else if (WIFEXITED(st) && WEXITSTATUS(st) == 79) { harnessError = true; fprintf(stderr, "%s", slurp(errf).c_str()); continue; }
			else if (!s.inItem) { harnessError = true; fprintf(stderr, "worker died outside an item, status %x\n%s", st, slurp(errf).substr(0, 4000).c_str()); continue; }
			else if ((hung[i] || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) && retry[i] != s.idx)
			{
				// a slow machine is no hang: once more, alone, with a longer limit
				retry[i] = s.idx;
				s.inItem = 0;
			}
			else
			{
				std::string why = slurp(errf);
				// keep the informative part of a sanitizer report
				size_t k = why.find("ERROR:"); if (k == std::string::npos) k = why.find("runtime error:");
				if (k == std::string::npos) k = why.find("Assertion");
				if (k != std::string::npos) { size_t b = why.rfind('\n', k); why = why.substr(b == std::string::npos ? 0 : b + 1); }
				why = why.substr(0, 600);
				std::string what = hung[i] ? "no result within the time limit (hang)"
					: WIFSIGNALED(st) ? std::string("process killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ") " + why
					: "process exited with status " + std::to_string(WEXITSTATUS(st)) + " " + why;
				put(record(s.idx, i, n, fromIdx[i], s.desc, what, hung[i] ? "hang" : "crash"));
				crashTotal++; sh->evaluations++;
				if (hung[i] && ++hangs >= 2) { sh->stop = 1; stopped = true; }
				next = s.idx + 1;
				s.inItem = 0;
			}
			hung[i] = 0;
			if (sh->stop) continue;
			fromIdx[i] = next;
			pid[i] = spawn(c, sh, i, n, next, thorough, errf); alive++;
		}
		// known findings: exact case text of this property
		std::set<std::string> knownCases; std::map<std::string, std::string> knownWhat;
		{
			std::ifstream k(known); std::string l;
			while (std::getline(k, l))
			{
				if (l.find("\"property\"") == std::string::npos) continue;
				if (field(l, "property") != c.id || field(l, "status") != "open") continue;
				knownCases.insert(field(l, "case")); knownWhat[field(l, "case")] = field(l, "what");
			}
		}
		uint64_t unlisted = 0, listed = 0;
		std::vector<std::string> lines;
		{ std::ifstream v(violfile); std::string l; while (std::getline(v, l)) lines.push_back(l); }
		std::set<std::string> seenKnown;
		std::map<uint64_t, std::string> ordered;
		for (auto & l : lines)
		{
			std::string cs = field(l, "case");
			if (knownCases.count(cs))
			{
				listed++;
				if (seenKnown.insert(cs).second) printf("KNOWN-FINDING: property=%s %s: %s\n", c.id, cs.c_str(), knownWhat[cs].c_str());
				continue;
			}
			unlisted++;
			ordered[strtoull(field(l, "index").c_str(), 0, 10)] = l;
		}
		// replay before report: the first cases again in a fresh process, alone, else behind their history
		uint64_t unstable = 0; std::map<uint64_t, std::string> mode;
		{
			std::map<uint64_t, std::string> conf; int k = 0;
			for (auto & o : ordered)
			{
				if (k >= 10) { conf.insert(o); continue; }
				auto num = [&](const char * f) { return strtoull(field(o.second, f).c_str(), 0, 10); };
				if (field(o.second, "kind") == "hang") { mode[o.first] = "alone"; conf.insert(o); ++k; continue; }   // has been run twice already
				if (again(c, sh, o.first, num("shard"), num("nshards"), 0, true, thorough, base + ".erra", 60)) { mode[o.first] = "alone"; conf.insert(o); ++k; }
				else if (again(c, sh, o.first, num("shard"), num("nshards"), num("from"), false, thorough, base + ".erra", 120)) { mode[o.first] = "history"; conf.insert(o); ++k; }
				else { ++unstable; --unlisted; printf("  not reproducible, dropped: %s\n    %s\n", field(o.second, "case").substr(0, 300).c_str(), field(o.second, "what").substr(0, 300).c_str()); if (unstable > 20) break; }
			}
			unlink((base + ".erra").c_str());
			ordered.swap(conf);
			if (ordered.empty()) unlisted = 0;
		}
		int shown = 0; const int showMax = getenv("MC_SHOW") ? atoi(getenv("MC_SHOW")) : 10;
		std::string repdir = outdir + "/../replay"; mkdir(repdir.c_str(), 0755);
		for (auto & o : ordered)
		{
			if (shown >= showMax) break;
			std::string rf = repdir + "/" + c.id + "-" + std::to_string(shown) + ".json";
			char * rp = realpath(repdir.c_str(), 0);
			if (rp) { rf = std::string(rp) + "/" + c.id + "-" + std::to_string(shown) + ".json"; free(rp); }
			std::ofstream f(rf);
			f << "{\"property\": \"" << c.id << "\", \"tier\": \"" << tier << "\", \"variant\": \"" << variant << "\", \"mode\": \"" << (mode.count(o.first) ? mode[o.first] : "alone") << "\", " << o.second.substr(1) << "\n";
			f.close();
			printf("  case %s\n    %s\n", field(o.second, "case").substr(0, 1500).c_str(), field(o.second, "what").substr(0, 1500).c_str());
			printf("VIOLATION property=%s replay=%s\n", c.id, rf.c_str());
			shown++;
		}
		if (unlisted > (uint64_t)shown) printf("  (%llu violating cases in total)\n", (unsigned long long)unlisted);
		unlink(violfile.c_str());
		for (int i = 0; i < n; ++i) unlink((base + ".err" + std::to_string(i)).c_str());
		bool complete = !timedout && !stopped && !harnessError;
		for (int i = 0; i < n; ++i) if (!done[i]) complete = false;
		double wall = now() - t0;
		if (timedout) printf("  time limit reached: the walk is not complete\n");
		if (stopped) printf("  stopped early after too many violations or repeated hangs\n");
		std::ostringstream e;
		e << "{\n \"property\": \"" << c.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": "
			<< (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1) << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
			<< "  \"states\": " << sh->states.n << ",\n  \"transitions\": " << sh->steps
			<< ",\n  \"traces_validated_against_impl\": " << sh->traces
			<< ",\n  \"items_enumerated\": " << sh->total << ",\n  \"evaluations\": " << sh->evaluations
			<< ",\n  \"distinct_outcomes\": " << sh->outcomes.n
			<< ",\n  \"state_table_saturated\": " << (sh->states.saturated + sh->outcomes.saturated ? "true" : "false")
			<< ",\n  \"exhaustive\": " << (complete ? "true" : "false")
			<< ",\n  \"build_variant\": \"" << variant << "\""
			<< ",\n  \"rule\": \"" << jesc(c.space) << "\",\n  \"oracle\": \"" << jesc(c.oracle) << "\",\n  \"classes\": {";
		bool comma = false;
		std::map<std::string, uint64_t> tg;
		for (size_t i = 0; i < NTAG; ++i) if (sh->tags[i].name[0]) tg[sh->tags[i].name] += sh->tags[i].n;
		for (auto & t : tg) { e << (comma ? ", " : "") << "\"" << jesc(t.first) << "\": " << t.second; comma = true; }
		e << "},\n  \"samples\": [";
		comma = false;
		for (size_t i = 0; i < NSAMPLE && i < sh->nsample; ++i) { e << (comma ? ",\n   " : "\n   ") << "\"" << jesc(sh->sample[i]) << "\""; comma = true; }
		e << "\n  ]\n },\n \"assumptions\": [";
		for (size_t i = 0; i < c.assumptions.size(); ++i) e << (i ? ", " : "") << "\"" << jesc(c.assumptions[i]) << "\"";
		e << "],\n \"known_findings\": " << seenKnown.size() << ",\n \"violations\": " << unlisted << ",\n \"unstable\": " << unstable << ",\n \"wall_s\": " << wall << "\n}\n";
		if (!evidence.empty()) { std::ofstream f(evidence); f << e.str(); }
		// scratch directories of killed or restarted workers
		if (DIR * h = opendir(outdir.c_str()))
		{
			std::string mineP = "scratch." + std::to_string(getpid()) + ".";
			std::vector<std::string> old;
			while (dirent * d = readdir(h)) if (std::string(d->d_name).compare(0, mineP.size(), mineP) == 0) old.push_back(outdir + "/" + d->d_name);
			closedir(h);
			for (auto & d : old) { scratch::wipeIn(d); rmdir(d.c_str()); }
		}
		printf("%s %s: items=%llu evaluations=%llu states=%llu transitions=%llu traces=%llu outcomes=%llu exhaustive=%s violations=%llu wall=%.1fs\n",
			c.id, tier.c_str(), (unsigned long long)sh->total, (unsigned long long)sh->evaluations, (unsigned long long)sh->states.n,
			(unsigned long long)sh->steps, (unsigned long long)sh->traces, (unsigned long long)sh->outcomes.n, complete ? "yes" : "no", (unsigned long long)unlisted, wall);
		if (harnessError) return 3;
		if (sh->evaluations == 0) { fprintf(stderr, "nothing was executed\n"); return 3; }
		return unlisted ? 1 : 0;
	}
}
