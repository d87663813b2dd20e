// Two host threads, each with a session of its own: every schedule up to a preemption bound, the
// preemption points being all memory allocations (and all evaluation steps) of the implementation,
// under a controlled scheduler that the race detector cannot see.
#include "mc.h"
#include "adapter.h"
#include "ref.h"
#include "diff.h"
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/futex.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
#define QUIET __attribute__((no_sanitize("thread"), noinline))

// ---- scheduler ------------------------------------------------------------------------------
// One thread runs at a time.  Its state is only touched by functions the race detector does not
// instrument, and the hand over is a bare futex: the detector sees no order between the threads.
namespace sch
{
	static volatile int active = 0, turn = 0, fine = 1, stolen = 0;
	static volatile long progress = 0, seg[8], nseg = 0, cur = 0, left = 0, points[2];
	static volatile int finished[2];
	static __thread int me = -1;
	static __thread int off = 0;
	QUIET static void futexWait(volatile int * a, int v, long ns)
	{
		timespec t = { 0, ns };
		syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, &t, 0, 0);
	}
	QUIET static void give(int to)
	{
		if (finished[to]) return;
		__asm__ volatile("mfence" ::: "memory");
		turn = to;
		__asm__ volatile("mfence" ::: "memory");
		syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 2, 0, 0, 0);
	}
	QUIET static void await()
	{
		long seen = progress; int idle = 0;
		while (turn != me)
		{
			futexWait(&turn, 1 - me, 3000000);
			if (turn == me) break;
			// the other thread waits for something this one holds (the guard of a static variable)
			if (progress != seen) { seen = progress; idle = 0; }
			else if (++idle >= 7) { stolen = 1; turn = me; break; }
		}
		__asm__ volatile("mfence" ::: "memory");
	}
	QUIET static void next()
	{
		cur = cur + 1;
		left = cur < nseg ? seg[cur] : 0x7fffffff;
	}
	QUIET static void point(int isFine)
	{
		if (!active || me < 0 || off || isFine != fine) return;
		off = 1;
		if (turn != me) await();
		progress = progress + 1;
		points[me] = points[me] + 1;
		if (left > 0) left = left - 1;
		if (left == 0 && !finished[1 - me]) { next(); give(1 - me); await(); }
		off = 0;
	}
	QUIET static void begin(int id) { me = id; off = 1; await(); off = 0; }
	QUIET static void end()
	{
		off = 1; if (turn != me) await();
		finished[me] = 1; progress = progress + 1; int o = 1 - me; me = -1;
		next(); give(o);
	}
	QUIET static void start(const std::vector<long> & s, int isFine)
	{
		nseg = (long)s.size(); for (long i = 0; i < nseg; ++i) seg[i] = s[i];
		cur = 0; left = nseg ? seg[0] : 0x7fffffff; fine = isFine; stolen = 0; progress = 0;
		points[0] = points[1] = 0; finished[0] = finished[1] = 0; turn = 0; active = 1;
		if (left == 0) { next(); turn = 1; }
	}
	QUIET static void stop() { active = 0; }
}
#ifdef TSAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
QUIET static void onMalloc(const volatile void *, size_t) { sch::point(1); }
QUIET static void onFree(const volatile void *) {}
static const int hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#else
void * operator new(size_t n) { sch::point(1); if (void * p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
#endif

static volatile int races = 0; static char race[200];
#ifdef TSAN
extern "C" int __tsan_get_report_data(void * report, const char ** description, int * count, int * stack_count, int * mop_count, int * loc_count, int * mutex_count, int * thread_count, int * unique_tid_count, void ** sleep_trace, unsigned long trace_size);
extern "C" const char * __tsan_default_options() { return "exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=2:die_after_fork=0:report_thread_leaks=0:suppress_equal_stacks=0:suppress_equal_addresses=0"; }
extern "C" QUIET void __tsan_on_report(void * rep)
{
	const char * d = 0; int c[7]; void * tr[1];
	__tsan_get_report_data(rep, &d, c, c + 1, c + 2, c + 3, c + 4, c + 5, c + 6, tr, 1);
	races = races + 1; strncpy(race, d ? d : "report", 199);
}
#endif

// ---- what a thread does ---------------------------------------------------------------------
static std::string lib() { const char * r = getenv("MC_REPO"); return std::string(r ? r : "/repo") + "/Library/fuellib.fuel"; }
static std::string show(fx::Session & s, const fx::Out & o)
{
	std::string r = std::to_string(o.kind) + " " + o.repr + " " + o.text + " " + o.type + " " + o.msg + " " + std::to_string(o.line) + " " + std::to_string(o.start) + " " + o.module + " " + o.stack + " | " + s.output() + " |";
	for (auto & g : s.globalNames()) r += " " + g + "=" + s.global(g);
	return r;
}
struct Job { int id; const std::string * prog; bool steps, create; fx::Session s; std::string res; Job() : s(fx::Session()) {} };
static void prepare(Job & j) { if (j.steps) j.s.onStep([]() { sch::point(0); }); j.s.setInput("in put\nsecond"); }
static void perform(Job & j)
{
	if (j.create) { j.s = fx::Session(); prepare(j); }
	j.res = show(j.s, j.s.eval(*j.prog, "mod"));
}
static void * body(void * p)
{
	Job & j = *(Job *)p;
	sch::begin(j.id);
	perform(j);
	sch::end();
	return 0;
}
static std::string job(const std::string & prog, bool steps) { Job j; j.prog = &prog; j.steps = steps; j.create = false; prepare(j); perform(j); return j.res; }
struct Res { std::string r[2]; long pts[2]; int stolen; };
// create: the sessions are created by the threads (under the scheduler) too
static void both(const std::string & a, const std::string & b, const std::vector<long> & seg, bool fine, bool create, Res & out)
{
	Job x, y;
	x.id = 0; x.prog = &a; y.id = 1; y.prog = &b; x.steps = y.steps = !fine; x.create = y.create = create;
	if (!create) { prepare(x); prepare(y); }
	sch::start(seg, fine);
	pthread_t t, u;
	pthread_create(&t, 0, body, &x); pthread_create(&u, 0, body, &y);
	pthread_join(t, 0); pthread_join(u, 0);
	sch::stop();
	out.r[0] = x.res; out.r[1] = y.res;
	out.pts[0] = sch::points[0]; out.pts[1] = sch::points[1]; out.stolen = sch::stolen;
}
static long count(const std::string & p, bool fine, bool create) { Job j; j.id = 0; j.prog = &p; j.steps = !fine; j.create = create; if (!create) prepare(j); sch::start({}, fine); sch::finished[1] = 1; body(&j); sch::stop(); return sch::points[0]; }

static const char * progs[] = {
	"(do (def x 1) (println x) (+ x 2.5))",
	"(do (defn fib (n) (if (< n 2) (rval n) (+ (fib (- n 1)) (fib (- n 2))))) (fib 4))",
	"(do (define-macro-eval m (a b) (list b a)) (println (m 1 2)) (m \"x\" 'y))",
	"(do (define-macro-expand m (a) (list '+ a 1)) (println (m 3)) (m 4))",
	"(do (defn mk (n) (fn (k) (setf n (+ n k)))) (def c (mk 1)) (def d (mk 10)) (c 1) (d 5) (list (c 1) (d 1)))",
	"(do (def d (make-dict)) (dict-set d \"k\" 'v) (dict-set d 2 (list 1)) (println (dict-get d 2)) (list (dict-contains-key d \"k\") (len d)))",
	"(do (println (format \"{0}-{1}\" 1 \"b\")) (print \"a\" 2.5 #t) (list (str 1.5) (upper-case \"abc\") (slice \"hello\" 1 3)))",
	"(do (def l (list 3 4)) (push 1 l) (setf (first l) 9) (println (map (fn (x) (* x x)) l)) (reduce + l 0))",
	"(do (trace #t) (println 1) (def t (gettrace)) (trace #f) (list t))",
	"(do (def i 0) (while (< i 3) (do (println i) (setf i (+ i 1)))) (readline))",
	"(do (def q `(1 ,(+ 1 1) ,@(list 3 4))) (println q) (eval (list '+ 1 2)))",
	"(do (println (evalstr \"(do (def z 5) (* z 2))\")) (first (list z)))",
	"(do ; doc of f\n(defn f (a b) (+ a b)) (println (doc 'f)) (f 1 2))",
	"(do (def x (list 1 (list 2 'a) \"s\")) (println x (typestr x) (type x)) (== x (list 1)))",
	"(do (gdef g 7) (defn f () (do (gdef h g) (setf g 8) (list g h))) (println (f)) (list g h))",
	"(do (println (Math-Sin 0.5) (int \"12\") (parse-float \"2.5\") (float 3)) (<< 1 4))",
	"(do (defn f (x) (do (return (* x 2)) (first (list 5)))) (println (f 4) (argscount)) (apply f '(3)))",
	"(do (def s \"a\\\"b\") (println s (search \"b\" s) (replace s \"a\" \"c\") (trim \" x \")) (reverse '(1 2)))",
	"(do (println (and 1 0) (or #f 3) (not #t) (if NIL 1 2)) (cons 1 '(2)))",
	"(do (vars) (delvar 'zz) (nop))",
	"(do (setf + -) (println (+ 5 3)) (defn println (x) 77) (println 1))",
};
static const char * fails[] = {
	"(do (println 1) (undefined-function 5))",
	"(do (defn f (x)\n (first x))\n (println 2)\n (f 5))",
	"(do (def l (list 1))\n (nth 7 l))",
	"(println (+ 1 (list 2)) ",
};
static std::string judge(mc::W & w, const std::string & a, const std::string & b, const std::string & ea, const std::string & eb, const std::vector<long> & seg, bool fine, bool create = false)
{
	races = 0;
	Res r; both(a, b, seg, fine, create, r);
	w.traces(1); w.steps(r.pts[0] + r.pts[1]);
	if (r.stolen) w.tag("a thread waited for the other one inside of the implementation");
	if (races) return std::string("race detector: ") + race;
	if (r.r[0] != ea) return "first thread: alone " + ea + ", together " + r.r[0];
	if (r.r[1] != eb) return "second thread: alone " + eb + ", together " + r.r[1];
	w.outcome(ea); 
	return "";
}
static void explore(mc::W & w)
{
	std::vector<std::string> P, S;          // S: programs for schedules at evaluation steps (errors in functions talk to the debugger)
	for (auto p : progs) { P.push_back(p); S.push_back(p); }
	S.pop_back();
	for (auto p : fails) P.push_back(p);
	const std::string imp = "(do (import \"" + lib() + "\") (foreach '(1 2) println) (dotimes (i 2) (println i)) (find 2 '(1 2)))";
	auto segs = [](const std::vector<long> & s) { std::string r; for (long k : s) r += " " + std::to_string(k); return r; };
	P.push_back(imp);
	// 0. in a fresh process: nothing has been initialised yet when the two threads start
	for (auto & a : P) for (auto & b : P) for (long k : { 0l, 100l, 2000l, 1l << 20 })
		w.item([&]() { return "fresh process, switch after " + std::to_string(k) + ": " + a + " || " + b; }, [&]() -> std::string
		{
			int fd[2]; if (pipe(fd)) return "";
			pid_t c = fork();
			if (c == 0)
			{
				close(fd[0]);
				races = 0; Res r; both(a, b, { k }, true, true, r);
				std::string bad;
				if (races) bad = std::string("race detector: ") + race;
				else { std::string ea = job(a, false), eb = job(b, false); if (r.r[0] != ea) bad = "first thread: alone " + ea + ", together " + r.r[0]; else if (r.r[1] != eb) bad = "second thread: alone " + eb + ", together " + r.r[1]; }
				ssize_t n = write(fd[1], bad.data(), bad.size()); (void)n;
				_exit(0);
			}
			close(fd[1]);
			std::string bad; char buf[4096]; ssize_t n;
			while ((n = read(fd[0], buf, sizeof buf)) > 0) bad.append(buf, n);
			close(fd[0]);
			int st; waitpid(c, &st, 0);
			w.traces(1);
			if (!WIFEXITED(st) || WEXITSTATUS(st)) return "the process ended with status " + std::to_string(st);
			return bad;
		});
	// alone
	static std::map<std::string, std::pair<std::string, long>> alone[2];
	auto solo = [&](const std::string & p, bool fine) -> std::pair<std::string, long> &
	{
		auto it = alone[fine].find(p);
		if (it == alone[fine].end()) { std::string e = job(p, !fine); e = job(p, !fine); it = alone[fine].insert({ p, { e, count(p, fine, false) } }).first; }
		return it->second;
	};
	if (getenv("MC_COUNT")) for (auto & p : P) fprintf(stderr, "%ld %ld %s\n", solo(p, true).second, solo(p, false).second, p.c_str());
	// 1. programs alone against the reference
	for (auto & p : P) w.item([&]() { return "alone: " + p; }, [&]() { return p.find("import") == std::string::npos && p.find("(doc") == std::string::npos ? diff::program(w, p) : std::string(); });
	// 2. one preemption at every allocation: the other thread runs from its begin to its end inside
	for (auto & a : P) for (auto & b : P)
	{
		long n = solo(a, true).second;
		if (b == imp && a != imp && !w.thorough()) continue;
		long step = (w.thorough() ? 3 : 30) * (a == imp ? 40 : 1) * (b == imp ? 20 : 1), o = w.hash(a + b) % step;
		for (long k = o; k <= n; k += step)
			w.item([&]() { return "allocation " + std::to_string(k) + ": " + a + " || " + b; }, [&]() { return judge(w, a, b, solo(a, true).first, solo(b, true).first, { k }, true); });
	}
	// creation of a session while the other thread creates one and evaluates
	{
		const std::string a = "(println 1)", b = "(do (defn f (x) (list x)) (f 2))";
		static long n = count(a, true, true);
		for (long k = 0; k <= n; k += w.thorough() ? 1 : 7)
			w.item([&]() { return "creation, allocation " + std::to_string(k); }, [&]() { return judge(w, a, b, solo(a, true).first, solo(b, true).first, { k }, true, true); });
		printf("creation %ld\n", n);
	}
	// 3. evaluation steps: all schedules with up to 3 preemptions
	for (size_t x = 0; x < S.size(); ++x) for (size_t y = 0; y < S.size(); ++y)
	{
		const std::string & a = S[x], & b = S[y];
		long n = solo(a, false).second, m = solo(b, false).second;
		auto one = [&](const std::vector<long> & s) { w.item([&]() { return "steps" + segs(s) + ": " + a + " || " + b; }, [&]() { return judge(w, a, b, solo(a, false).first, solo(b, false).first, s, false); }); };
		for (long k = 0; k <= n; ++k) for (long j = 1; j <= m; j += w.thorough() ? 1 : 3)
		{
			one({ k, j });
			if (w.thorough() && x < 7 && y < 7) for (long i = 1; i <= n - k; i += 2) one({ k, j, i });
		}
	}
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P38",
		"two threads with a session each, under a controlled scheduler the race detector (ThreadSanitizer) does not see; 25 x 25 programs: in fresh processes with 4 schedules each; one preemption at every 30th (thorough 3rd) memory allocation of the implementation with the whole other program inside; two preemptions at all pairs (quick: every third step of the other thread) of evaluation steps (20 x 20 programs), thorough also three for 7 x 7; the creation of sessions with one preemption",
		"every program has the value, text, error, output and globals it has alone (which are compared with the reference interpreter), and no data race is reported",
		{ "each thread has its own session; the preemption points are the calls of operator new and the evaluated calls of the language, between them a thread runs uninterrupted (the race detector still sees unordered accesses)", "the host does not share a session between threads" }, explore, 30 });
}
