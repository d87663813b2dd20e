// Clock and host information, under a virtual clock.
#include "diff.h"
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdlib.h>
#include <errno.h>
#include <map>
// ---- the virtual clock: replaces the clock functions of the C library for the code under test -----------------
static bool g_virtual = false;
static long long g_ns = 0;                       // virtual time since the epoch
static long long g_sleeps = 0;
static int realClock(clockid_t c, struct timespec * t) { return (int)syscall(SYS_clock_gettime, c, t); }
extern "C" time_t time(time_t * p)
{
	struct timespec t; if (g_virtual) { t.tv_sec = g_ns / 1000000000; } else realClock(CLOCK_REALTIME, &t);
	if (p) *p = t.tv_sec;
	return t.tv_sec;
}
extern "C" int gettimeofday(struct timeval * tv, void *) noexcept
{
	struct timespec t; if (g_virtual) { t.tv_sec = g_ns / 1000000000; t.tv_nsec = g_ns % 1000000000; } else realClock(CLOCK_REALTIME, &t);
	tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}
extern "C" int clock_gettime(clockid_t c, struct timespec * t) noexcept
{
	if (!g_virtual || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return realClock(c, t);
	t->tv_sec = g_ns / 1000000000; t->tv_nsec = g_ns % 1000000000;
	return 0;
}
static int doSleep(const struct timespec * r)
{
	if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec >= 1000000000) return EINVAL;
	if (!g_virtual) return syscall(SYS_nanosleep, r, nullptr) ? errno : 0;
	g_ns += r->tv_sec * 1000000000ll + r->tv_nsec; g_sleeps++;
	return 0;
}
extern "C" int nanosleep(const struct timespec * r, struct timespec *) { int e = doSleep(r); if (e) { errno = e; return -1; } return 0; }
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec * r, struct timespec *)
{
	if (flags & TIMER_ABSTIME)
	{
		struct timespec n; clock_gettime(CLOCK_REALTIME, &n);
		long long d = (r->tv_sec - n.tv_sec) * 1000000000ll + (r->tv_nsec - n.tv_nsec);
		if (d <= 0) return 0;
		struct timespec t = { (time_t)(d / 1000000000), (long)(d % 1000000000) };
		return doSleep(&t);
	}
	return doSleep(r);
}
extern "C" int usleep(useconds_t u) { struct timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&t, nullptr); }
struct Virtual { Virtual(long long ns) { g_ns = ns; g_virtual = true; } ~Virtual() { g_virtual = false; } };
// ---- the calendar of the oracle -------------------------------------------------------------------------------------
static bool leap(int n) { return n % 4 == 0 && (n % 100 != 0 || n % 400 == 0); }
static std::string civil(long long sec)
{
	long long days = sec / 86400, rest = sec % 86400; if (rest < 0) { rest += 86400; --days; }
	int y = 1970, m = 0;
	while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; ++y; }
	static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	while (days >= len[m] + (m == 1 && leap(y))) { days -= len[m] + (m == 1 && leap(y)); ++m; }
	char b[100]; snprintf(b, sizeof b, "(%d %d %lld %lld %lld %lld)", y, m + 1, days + 1, rest / 3600, rest / 60 % 60, rest % 60);
	return b;
}
// seconds east of Greenwich; with summer time: its offset, first and last sunday (month, week 5 = last) and local time of the change
struct Zone { const char * tz; int offset; int summer = 0, m1 = 0, w1 = 0, t1 = 0, m2 = 0, w2 = 0, t2 = 0; };
static long long dayNumber(int y, int m, int d)     // days since 1970-01-01 (m 1..12)
{
	static const int before[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
	long long n = 0; for (int i = 1970; i < y; ++i) n += leap(i) ? 366 : 365;
	return n + before[m - 1] + (m > 2 && leap(y)) + d - 1;
}
static long long sunday(int y, int m, int week)
{
	static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	int last = len[m - 1] + (m == 2 && leap(y)), k = 0; long long res = 0;
	for (int d = 1; d <= last; ++d) if ((dayNumber(y, m, d) + 4) % 7 == 0 && (++k <= week)) res = dayNumber(y, m, d);
	return res;
}
static int offsetAt(const Zone & z, long long t)
{
	if (!z.summer) return z.offset;
	static std::map<std::pair<const char *, int>, std::pair<long long, long long>> memo;
	int y = 1970; long long days = (t + z.offset) / 86400; while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; ++y; }
	auto & c = memo[{ z.tz, y }];
	if (!c.first) c = { sunday(y, z.m1, z.w1) * 86400 + z.t1 - z.offset, sunday(y, z.m2, z.w2) * 86400 + z.t2 - z.summer };
	bool on = c.first < c.second ? t >= c.first && t < c.second : !(t >= c.second && t < c.first);
	return on ? z.summer : z.offset;
}
static void explore(mc::W & w)
{
	// 1. calendar: every day, several times of the day, several time zones
	std::vector<Zone> zones = { { "UTC0", 0 }, { "AAA-5:30", 19800 }, { "BBB8", -28800 }, { "CCC-14", 50400 }, { "DDD3:30", -12600 },
		{ "EET-2EEST,M3.5.0/3,M10.5.0/4", 7200, 10800, 3, 5, 10800, 10, 5, 14400 }, { "NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, 46800, 9, 5, 7200, 4, 1, 10800 }, { "EST5EDT,M3.2.0,M11.1.0", -18000, -14400, 3, 2, 7200, 11, 1, 7200 }, { "LHST-10:30LHDT-11,M10.1.0,M4.1.0", 37800, 39600, 10, 1, 7200, 4, 1, 7200 } };
	const int tod[] = { 0, 1, 3599, 19799, 28800, 43200 + 34 * 60 + 56, 86399 };
	int lastDay = w.thorough() ? 47482 : 24837;     // 2100-01-01, 2038-01-01
	for (auto & z : zones) for (int month = 0; month * 30 < lastDay; ++month)
	{
		w.item([&]() { return std::string("(date-time) on days ") + std::to_string(month * 30) + ".. TZ=" + z.tz; }, [&]() -> std::string
		{
			setenv("TZ", z.tz, 1); tzset();
			std::string bad;
			for (int d = month * 30; d < month * 30 + 30 && d < lastDay && bad.empty(); ++d) for (int s : tod)
			{
				long long t = d * 86400ll + s;
				int offset = offsetAt(z, t);
				if (t + z.offset < 0 || t + offset < 0) continue;
				Virtual v(t * 1000000000 + 999999999);
				fx::Session q; fx::Out o = q.eval("(date-time)");
				w.traces(1); w.steps(1); w.outcome(o.text); if (!z.offset) w.state(o.text);
				std::string want = civil(t + offset);
				if (o.text != want) { bad = "at " + std::to_string(t) + ": expected " + want + ", observed " + o.full(); break; }
			}
			setenv("TZ", "UTC0", 1); tzset();
			return bad;
		});
	}
	// 2. histories of clock operations
	struct Op { const char * code; long long ms; bool host; };
	std::vector<Op> ops = { { "(sleep 0)", 0, false }, { "(sleep 1)", 1, false }, { "(sleep 250)", 250, false }, { "(sleep 60000)", 60000, false }, { "(sleep -5)", 0, false },
		{ "", 1, true }, { "", 999, true }, { "", 3600000, true }, { "(do (sleep 3) (sleep (+ 1 2)))", 6, false }, { "(sleep 2.0)", 2, false } };
	const long long starts[] = { 0, 1, 999999, 1700000000123ll, 2147483646ll, 4294967295ll };   // ms: the tick count is a 32 bit number that wraps
	int depth = w.thorough() ? 5 : 3;
	for (long long st : starts)
	{
		for (int n = 0; n <= depth; ++n)
		{
			mc::Odo odo(n, (int)ops.size());
			do
			{
				w.item([&]() { std::string s = "start " + std::to_string(st) + " ms:"; for (int i = 0; i < n; ++i) s += std::string(" ") + (ops[odo.d[i]].host ? "host+" + std::to_string(ops[odo.d[i]].ms) : ops[odo.d[i]].code); return s; }, [&]() -> std::string
				{
					Virtual v(st * 1000000 + 400000);
					fx::Session q; long long now = st;
					w.traces(1);
					auto tick = [&]() -> std::string
					{
						fx::Out o = q.eval("(tickcount)"); w.steps(1);
						if (o.repr != std::to_string((int)(unsigned)now)) return "tickcount at " + std::to_string(now) + " ms: expected " + std::to_string((int)(unsigned)now) + ", observed " + o.full();
						fx::Out e = q.eval("(- (tickcount) t0)");
						long long d = (long long)(int)(unsigned)now - (int)(unsigned)st;
						if (d == (int)d && e.repr != std::to_string(d)) return "elapsed time: expected " + std::to_string(d) + ", observed " + e.full();
						w.outcome(e.repr);
						return "";
					};
					q.eval("(def t0 (tickcount))");
					std::string bad = tick();
					for (int i = 0; i < n && bad.empty(); ++i)
					{
						const Op & op = ops[odo.d[i]];
						if (op.host) g_ns += op.ms * 1000000;
						else { fx::Out o = q.eval(op.code); w.steps(1); if (!o.ok()) return std::string(op.code) + ": " + o.full(); if (o.text != "NIL" && o.type != "Undefined" && o.type != "Nil") return std::string(op.code) + " has the value " + o.full(); }
						now += op.ms;
						bad = tick();
					}
					w.state(std::to_string(now));
					return bad;
				});
			} while (odo.next());
		}
	}
	// 3. errors and constants, at every nesting
	for (auto bad : { "(sleep)", "(sleep 1 2)", "(sleep '(1))", "(sleep 's)", "(tickcount 1)" }) w.item([&]() { return std::string(bad); }, [&]() -> std::string
	{
		Virtual v(1000000000); long long before = g_ns;
		fx::Session q; fx::Out o = q.eval(bad); w.traces(1); w.steps(1); w.outcome(o.brief());
		if (!o.lispError()) return "expected an error, observed " + o.full();
		return g_ns == before ? "" : "the erroneous call slept";
	});
	std::string ver = fx::versionString();
	std::vector<std::pair<std::string, std::string>> consts = {
		{ "(platform)", "(\"UNIX\" \"C++\" \"64bit\")" }, { "(nth 0 (platform))", "\"UNIX\"" }, { "(version)", "\"" + ver + "\"" } };
	const char * wraps[] = { "%", "(do (defn f () %) (f))", "(first (list %))", "(do (def d 1) (if #t % 0))", "(do (def g (fn (x) x)) (g %))", "(first (map (fn (x) %) '(1)))", "(evalstr \"%\")" };
	for (auto & c : consts) for (auto wr : wraps)
	{
		std::string s = wr; s.replace(s.find('%'), 1, c.first);
		w.item([&]() { return s; }, [&]() -> std::string { fx::Session q; fx::Out o = q.eval(s); w.traces(1); w.steps(1); w.outcome(o.repr); return o.repr == c.second ? "" : "expected " + c.second + ", observed " + o.full(); });
	}
	w.item([]() { return std::string("(fuel), (copyright) and fuel -v"); }, [&]() -> std::string
	{
		fx::Session q; std::string f = q.eval("(fuel)").text, c = q.eval("(copyright)").text, v = fx::cli({ "-v" }, "").output;
		w.traces(1); w.steps(3);
		if (f.rfind("fuel version " + ver + " from ", 0) != 0) return "(fuel) is " + f;
		if (v.rfind("fuel " + ver + " from " + f.substr(("fuel version " + ver + " from ").size()), 0) != 0) return "fuel -v says " + v + ", (fuel) says " + f;
		if (c.rfind("Copyright: ", 0) != 0 || c.find("MIT") == std::string::npos) return "(copyright) is " + c;
		return "";
	});
}
int main(int c, char ** v)
{
	setenv("TZ", "UTC0", 1);
	return mc::main(c, v, { "P36",
		"(date-time) on every day of 1970 to 2037 (thorough: to 2099) at 7 times of the day in 9 time zones, 4 of them with summer time; all histories of up to 3 (5) clock operations out of 10 (sleeps and passing time) from 6 starting instants, among them those around the wrap of the 32 bit tick count; erroneous calls; the constants of the host in 7 contexts",
		"a virtual clock that replaces time, gettimeofday, clock_gettime, nanosleep and clock_nanosleep; a calendar computed by counting days", {}, explore });
}
