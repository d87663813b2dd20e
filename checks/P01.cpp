#include "robust.h"
static void explore(mc::W & w) { robust(w, w.thorough() ? 2 : 1); }
int main(int c, char ** v)
{
	return mc::main(c, v, { "P01",
		"every builtin, a user function, an unknown name and a macro applied to all argument tuples up to arity 2 (thorough 3) of 28 values and up to arity 4 (5) of smaller pools; every call in 41 program contexts; 22 uses of containers, functions and macros that are changed by pairs of 25 mutations while in use; all token sequences up to length 4 (5) of 14 tokens, up to 6 (8) of 6; all texts up to length 3 (5) of 16 characters; every byte.",
		"ends with a value or a language error: no signal, no sanitizer report, no other exception, no hang; the session accepts further code",
		{ "recursion depth is bounded by the stack of the process; containers that contain themselves are not printed", "File-WriteAllText is not exercised here (P25 does it in a scratch directory)", "sleep and break are left out", "while with a constant true condition is not run" }, explore, 5 });
}
