#include "robust.h"
static void explore(mc::W & w) { robust(w, w.thorough() ? 1 : 0); }
int main(int c, char ** v)
{
	return mc::main(c, v, { "P35",
		"address and undefined-behaviour sanitizer build: every builtin, a user function, an unknown name and a macro applied to all argument tuples up to arity 1 of 28 values and pairs of 10 x 7 values; every call in 41 program contexts; 22 uses of containers, functions and macros that are changed by mutations while in use; all token sequences up to length 2, texts up to length 2, every byte (thorough: the quick space of P01)",
		"no report of AddressSanitizer or UndefinedBehaviorSanitizer, no failed container precondition, no foreign exception",
		{ "recursion depth is bounded by the stack of the process; containers that contain themselves are not printed", "File-WriteAllText is not exercised here (P25 does it in a scratch directory)", "sleep and break are left out", "while with a constant true condition is not run" }, explore, 5 });
}
