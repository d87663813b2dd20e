// The embedding application: values read, compared and computed with from outside, variables and functions added from outside.
#include "adapter_host.h"
#include "diff.h"
#include <cmath>
#include <cstdlib>
using fx::HostValue; using fx::HostSpec;
typedef ref::Val V;
static const char * POOL[] = { "NIL", "#t", "#f", "0", "1", "-1", "42", "7", "2147483647", "-2147483648", "0.0", "1.0", "1.5", "-2.5", "1e9", "0.000000001", "0.5", "\"\"", "\"abc\"", "\"ABC\"", "\"12\"", "\"-3\"", "\"1.5\"", "\"null\"", "\"a'b\"", "\"<undefined>\"",
	"'sym", "'abc", "'sym2", "(list)", "(list 1 \"a\" 2.5)", "'(1 (2 x))", "(list (list) NIL #t)", "(list 1)", "(fn (x) x)", "+", "(make-dict)", "(do (def d (make-dict)) (dict-set d 1 \"v\") (first (list d)))", "(list (make-dict))", "(nop)", "(list (nop))" };
static const int NP = sizeof POOL / sizeof *POOL;
static std::string D(double d) { char b[64]; snprintf(b, sizeof b, "d%.15g", d); return b; }
static std::string S(const std::string & s) { return "\"" + s + "\""; }
static bool isInt(const std::string & s) { size_t i = s[0] == '-'; if (i >= s.size()) return false; for (; i < s.size(); ++i) if (!isdigit((unsigned char)s[i])) return false; return s.size() < 9; }
static bool isNum(const std::string & s) { return isInt(s) || s == "1.5"; }
// what the accessor has to deliver; "?" if it is not specified
static std::string want(const std::string & op, const ref::P & p)
{
	const V & v = *p; auto k = v.k;
	bool nil = k == V::Nil, lst = k == V::List;
	std::string text; bool known = true;
	try { text = ref::text(p); } catch (ref::Unspecified &) { known = false; }
	if (!known && op.compare(0, 8, "ToString") == 0) return "?";
	if (op == "ToBool" || op == "bool") return k == V::Bool ? (v.b ? "#t" : "#f") : k == V::Int ? (v.i ? "#t" : "#f") : k == V::Dbl ? (std::fabs(v.d) > 1e-8 ? "#t" : "#f") : "ERR";
	if (op == "ToInt" || op == "int")
	{
		if (k == V::Dbl) return std::fabs(v.d) < 2e9 ? std::to_string((int)v.d) : "?";
		if (k == V::Str) return isInt(v.s) ? v.s : "?";
		return k == V::Bool ? (v.b ? "1" : "0") : k == V::Int ? std::to_string(v.i) : "ERR";
	}
	if (op == "ToDouble" || op == "double")
	{
		if (k == V::Str) return isNum(v.s) ? D(atof(v.s.c_str())) : "?";
		return k == V::Bool ? D(v.b) : k == V::Int ? D(v.i) : k == V::Dbl ? D(v.d) : "ERR";
	}
	if (op == "ToString") return S(text);
	if (op == "StringValue") return k == V::Str || k == V::Sym ? S(v.s) : "?";
	if (op == "BoolValue") return k == V::Bool ? (v.b ? "#t" : "#f") : "ERR";
	if (op == "IntValue") return k == V::Int ? std::to_string(v.i) : "ERR";
	if (op == "DoubleValue") return k == V::Dbl ? D(v.d) : "ERR";
	if (op == "ListValue") return nil ? ref::repr(ref::mkList({})) : lst ? ref::repr(p) : "ERR";
	if (op == "ListValueRef") { if (nil) return ""; if (!lst) return "ERR"; std::string r; for (auto & e : *v.l) r += ref::repr(e) + ","; return r; }
	if (op == "FunctionValue") return k == V::Fn ? "fn" : "ERR";
	if (op == "ToStringCompiler") return k == V::Bool ? S(v.b ? "true" : "false") : k == V::Str ? S(S(v.s)) : S(text);
	if (op == "ToStringDebugger") return k == V::Str ? S(S(v.s)) : S(text);
	if (op == "copy" || op == "wrap" || op == "twice") return ref::repr(p);
	if (op == "is") { switch (k) { case V::Nil: return "NL"; case V::Undef: return "U"; case V::Str: return "S"; case V::Dbl: return "D#"; case V::Int: return "I#"; case V::Bool: return "B"; case V::List: return "L"; case V::Fn: return "F"; case V::Sym: return "Y"; case V::Native: return "O"; default: return "?"; } }
	if (op == "TypeString") { switch (k) { case V::Nil: return "Nil"; case V::Undef: return "Undefined"; case V::Str: return "String"; case V::Dbl: return "Double"; case V::Int: return "Int"; case V::Bool: return "Bool"; case V::List: return "List"; case V::Fn: return "Function"; case V::Sym: return "Symbol"; default: return "?"; } }
	return "?";
}
static const char * UN[] = { "ToBool", "ToInt", "ToDouble", "ToString", "StringValue", "BoolValue", "IntValue", "DoubleValue", "ListValue", "ListValueRef", "FunctionValue", "ToStringCompiler", "ToStringDebugger", "bool", "int", "double", "copy", "wrap", "twice", "is", "TypeString" };
static std::string program(const std::string & c) { return "(first (list " + c + "))"; }
static ref::P value(ref::Interp & m, const std::string & code)
{
	ref::P p = m.evalProgram(program(code), m.global, false, "host");
	return p ? ref::wrap(p) : ref::mk(V::Undef);
}
static bool spec(const std::string & code, HostSpec & h)
{
	if (code == "NIL") { h = { 'n', 0, 0, "", {} }; return true; }
	if (code[0] == '#') { h = { 'b', code == "#t", 0, "", {} }; return true; }
	if (code[0] == '"') { h = { 's', 0, 0, code.substr(1, code.size() - 2), {} }; return true; }
	if (code[0] == '\'' && code[1] != '(') { h = { 'y', 0, 0, code.substr(1), {} }; return true; }
	if (isdigit((unsigned char)code[0]) || code[0] == '-') { bool d = code.find_first_of(".e") != std::string::npos; h = { d ? 'd' : 'i', d ? 0 : (int)strtol(code.c_str(), 0, 10), strtod(code.c_str(), 0), "", {} }; return true; }
	if (code == "(list)") { h = { 'l', 0, 0, "", {} }; return true; }
	if (code == "(list 1 \"a\" 2.5)") { h = { 'l', 0, 0, "", { { 'i', 1, 0, "", {} }, { 's', 0, 0, "a", {} }, { 'd', 0, 2.5, "", {} } } }; return true; }
	if (code == "(list 1)") { h = { 'l', 0, 0, "", { { 'i', 1, 0, "", {} } } }; return true; }
	return false;
}
static std::string observe(mc::W & w, const std::string & code, const std::vector<std::string> & ops, bool made)
{
	fx::Session s; ref::Interp m; std::string err;
	ref::P p;
	try { p = value(m, code); } catch (ref::Unspecified &) { return ""; }
	HostValue h; HostSpec hs;
	if (made) { if (!spec(code, hs)) return ""; h = fx::make(hs); }
	else h = fx::evalHost(s, program(code), err);
	if (!h.valid() || !err.empty()) return "no value: " + err;
	std::string before = h.repr();
	if (before != ref::repr(p)) return "expected value " + ref::repr(p) + ", observed " + before;
	w.traces(1); w.steps(ops.size());
	for (auto & op : ops)
	{
		std::string e = want(op, p), o = fx::unary(op, h);
		w.state(code + "|" + op); w.outcome(o);
		if (o.compare(0, 7, "FOREIGN") == 0) return op + ": " + o;
		if (e != "?" && e != o) return op + ": expected " + e + ", observed " + o;
		if (h.repr() != before) return op + " changed the value " + before + " into " + h.repr();
	}
	return "";
}
static const char * BIN[] = { "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "EqualOp", "Equals" };
static std::string pairs(mc::W & w, const std::string & a, const std::string & b)
{
	fx::Session s; ref::Interp m; std::string err;
	ref::P x, y;
	try { x = value(m, a); y = value(m, b); } catch (ref::Unspecified &) { return ""; }
	auto get = [&](const std::string & c) { return fx::evalHost(s, program(c), err); };
	HostValue p = get(a), q = get(b);
	if (!p.valid() || !q.valid()) return "no value";
	m.global->vars["a"] = x; m.global->vars["b"] = y;
	std::string rx = p.repr(), ry = q.repr();
	w.traces(1);
	for (auto op : BIN)
	{
		std::string lop = op; if (lop == "EqualOp" || lop == "Equals") lop = "==";
		ref::Res r = m.eval("(" + lop + " a b)");
		std::string o = fx::binary(op, p, q);
		w.steps(1); w.outcome(o);
		if (o.compare(0, 7, "FOREIGN") == 0) return std::string(op) + ": " + o;
		if (r.kind != ref::Res::Unspec && r.brief() != o) return std::string(op) + ": expected " + r.brief() + ", observed " + o;
		if (p.repr() != rx || q.repr() != ry) return std::string(op) + " changed an operand";
	}
	{
		// the C++ operator: the same kind and the same value
		std::string eq = fx::binary("==", p, q), ne = fx::binary("!=", p, q);
		bool scalar = x->k == V::Bool || x->k == V::Int || x->k == V::Dbl || x->k == V::Str;
		std::string e = x->k != y->k ? "#f" : scalar ? (ref::repr(x) == ref::repr(y) ? "#t" : "#f") : "?";
		if (e != "?" && eq != e) return "operator ==: expected " + e + ", observed " + eq;
		if (!((eq == "#t" && ne == "#f") || (eq == "#f" && ne == "#t"))) return "operator == delivers " + eq + ", operator != " + ne;
		if (fx::binary("==", q, p) != eq) return "operator == is not symmetric";
		if (fx::binary("==", p, p) != "#t") return "operator == is not reflexive";
	}
	std::string e = x->k == V::Sym && y->k == V::Sym ? (x->s == y->s ? "#t" : "#f") : "#f", o = fx::binary("SymbolCompare", p, q);
	if (o != e) return "SymbolCompare: expected " + e + ", observed " + o;
	std::string c1 = fx::binary("CompareTo object", p, q), c2 = fx::binary("CompareTo variant", p, q), back = fx::binary("CompareTo object", q, p);
	auto num = [](const ref::P & v) { return v->k == V::Int || v->k == V::Dbl; };
	auto d = [](const ref::P & v) { return v->k == V::Int ? (double)v->i : v->d; };
	e = "?";
	if (num(x) && num(y)) e = d(x) < d(y) ? "<" : d(x) > d(y) ? ">" : "=";
	else if ((x->k == V::Str && y->k == V::Str) || (x->k == V::Sym && y->k == V::Sym)) e = x->s < y->s ? "<" : x->s > y->s ? ">" : "=";
	if (c1.compare(0, 7, "FOREIGN") == 0) return "CompareTo: " + c1;
	if (e != "?" && c1 != e) return "CompareTo: expected " + e + ", observed " + c1;
	if (c1 != c2) return "CompareTo of the value " + c2 + ", of the same value as an object " + c1;
	if (!((c1 == "<" && back == ">") || (c1 == ">" && back == "<") || (c1 == "=" && back == "="))) return "CompareTo is not antisymmetric: " + c1 + " and " + back;
	if (p.repr() != rx || q.repr() != ry) return "CompareTo changed an operand";
	// append to a list
	std::string added = fx::binary("Add", p, q);
	if (x->k == V::List) { if (added != "added") return "Add: " + added; x->l->push_back(y); if (p.repr() != ref::repr(x)) return "Add: expected " + ref::repr(x) + ", observed " + p.repr(); }
	else { if (added != "ERR") return "Add: expected an error, observed " + added; if (p.repr() != rx) return "Add changed the value"; }
	w.state(a + "|" + b);
	return "";
}
// the order of keys, for all triples
static std::string order(mc::W & w, int i)
{
	fx::Session s; ref::Interp m; std::string err; std::vector<HostValue> v; std::vector<ref::P> r;
	for (auto c : POOL) { v.push_back(fx::evalHost(s, program(c), err)); r.push_back(value(m, c)); }
	auto less = [&](int a, int b) { return fx::binary("KeyLess", v[a], v[b]) == "#t"; };
	auto num = [](const ref::P & v) { return v->k == V::Int || v->k == V::Dbl; };
	auto d = [](const ref::P & v) { return v->k == V::Int ? (double)v->i : v->d; };
	std::vector<std::vector<char>> t(NP, std::vector<char>(NP));
	for (int a = 0; a < NP; ++a) for (int b = 0; b < NP; ++b) t[a][b] = less(a, b);
	w.traces(1);
	for (int b = 0; b < NP; ++b)
	{
		bool same = !t[i][b] && !t[b][i];
		if (t[i][b] && t[b][i]) return std::string("both orders: ") + POOL[b];
		bool ns = num(r[i]) && num(r[b]), ss = r[i]->k == r[b]->k && (r[i]->k == V::Str || r[i]->k == V::Sym), bs = r[i]->k == V::Bool && r[b]->k == V::Bool;
		bool expect = i == b || (ns && d(r[i]) == d(r[b])) || (ss && r[i]->s == r[b]->s) || (bs && r[i]->b == r[b]->b);
		bool scalar = ns || ss || bs || (r[i]->k != r[b]->k && !(num(r[i]) && num(r[b])));
		if (scalar && same != expect) return std::string(expect ? "different" : "the same") + " key as " + POOL[b];
		for (int c = 0; c < NP; ++c)
		{
			w.steps(1);
			if (t[i][b] && t[b][c] && !t[i][c]) return std::string("not transitive: ") + POOL[b] + " , " + POOL[c];
			bool bc = !t[b][c] && !t[c][b], ic = !t[i][c] && !t[c][i];
			if (same && bc && !ic) return std::string("sameness is not transitive: ") + POOL[b] + " , " + POOL[c];
		}
	}
	w.state(POOL[i]);
	return "";
}
// ---- histories of the application and of programs --------------------------------------------------------
struct Run
{
	fx::Session s; ref::Interp m; int hostCalls = 0, modelCalls = 0; int depth = 0, mdepth = 0;
	ref::P toRef(const HostSpec & h)
	{
		switch (h.kind)
		{
			case 'b': return ref::mkBool(h.i != 0); case 'i': return ref::mkInt(h.i); case 'd': return ref::mkDbl(h.d); case 's': return ref::mkStr(h.s); case 'y': return ref::mkSym(h.s);
			case 'l': { ref::L l; for (auto & e : h.l) l.push_back(toRef(e)); return ref::mkList(l); }
			default: return ref::mk(V::Nil);
		}
	}
	void var(const std::string & n, const HostSpec & h) { fx::setVariable(s, n, fx::make(h)); m.global->vars[n] = toRef(h); }
	void fun(const std::string & n, const std::string & kind)
	{
		fx::setFunction(s, n, [this, kind](std::vector<HostValue> & a) -> HostValue
		{
			++hostCalls;
			HostSpec nil = { 'n', 0, 0, "", {} };
			if (kind == "args") { std::string r; for (auto & v : a) r += v.repr() + ";"; return fx::make({ 's', 0, 0, r, {} }); }
			if (kind == "id") { if (a.empty()) return fx::make(nil); return a[0]; }
			if (kind == "throw") { fx::throwLisp("host"); }
			if (kind == "count") return fx::make({ 'i', hostCalls, 0, "", {} });
			if (kind == "set") { if (!a.empty()) fx::setVariable(s, "x", a.back()); return fx::make({ 'b', 1, 0, "", {} }); }
			if (kind.compare(0, 3, "re ") == 0) { if (++depth > 6) { depth = 0; fx::throwLisp("deep"); } struct G { int & d; ~G() { if (d > 0) --d; } } g{ depth }; HostValue v = fx::evalThrough(s, kind.substr(3)); if (!v.valid()) return fx::make(nil); return v; }
			return fx::make(nil);
		});
		m.def(n, false, [this, kind](ref::Interp & i, std::vector<ref::P> & a, ref::E) -> ref::P
		{
			++modelCalls;
			if (kind == "args") { std::string r; for (auto & v : a) r += ref::repr(v) + ";"; return ref::mkStr(r); }
			if (kind == "id") { if (a.empty()) return ref::mk(V::Nil); return a[0]; }
			if (kind == "throw") throw ref::Err{ "host" };
			if (kind == "count") return ref::mkInt(modelCalls);
			if (kind == "set") { if (!a.empty()) i.global->vars["x"] = a.back(); return ref::mkBool(true); }
			if (kind.compare(0, 3, "re ") == 0) { if (++mdepth > 6) { mdepth = 0; throw ref::Err{ "deep" }; } struct G { int & d; ~G() { if (d > 0) --d; } } g{ mdepth }; ref::P v = i.evalProgram(kind.substr(3), i.global, false, "host"); if (!v) return ref::mk(V::Nil); return ref::wrap(v); }
			return ref::mk(V::Nil);
		});
	}
	std::string prog(mc::W & w, const std::string & code)
	{
		ref::Res r = m.eval(code, false, "test");
		if (r.kind == ref::Res::Unspec || r.kind == ref::Res::Diverge) { w.tag("not judged"); return "-"; }
		fx::Out o = s.eval(code);
		if (ref::norm(o.brief()) != ref::norm(r.brief())) return code + ": expected " + r.brief() + ", observed " + o.full();
		if (r.kind == ref::Res::Value && r.text != o.text && ref::norm(r.repr) == r.repr) return code + ": expected text " + r.text + ", observed " + o.text;
		std::string a = m.takeOutput(), b = s.takeOutput();
		if (a != b) return code + ": expected output " + a + ", observed " + b;
		w.outcome(o.brief());
		return "";
	}
	std::string globals()
	{
		for (auto n : { "x", "y", "z", "l" })
		{
			std::string a = m.var(n), b;
			HostValue h = fx::variable(s, n); if (h.valid()) b = h.repr();
			if (ref::norm(a) != ref::norm(b)) return std::string("variable ") + n + ": expected " + a + ", the application sees " + b;
		}
		if (hostCalls != modelCalls) return "expected " + std::to_string(modelCalls) + " calls of the application's functions, observed " + std::to_string(hostCalls);
		return "";
	}
};
static const std::vector<std::string> OPS = {
	"$x i", "$x l", "$x s", "$x n", "$x b", "$y d", "$l ll", "$x y",
	"!f args", "!f id", "!f throw", "!f count", "!f set", "!f re (setf x (+ x 1))", "!f re (do (def z (list x x)) (first (list z)))", "!f re (f)", "!f re (return 5)", "!f re (no-such-function)", "!f re (println x)", "!f re (defn g (n) (+ n 100))", "!+ args", "!f nil",
	"(f)", "(f 1 \"a\" x)", "(list (f x) x)", "x", "(+ x 1)", "(def y (f y))", "(setf x 5)", "(map f '(1 2))", "(defn g (n) (do (f n) (return (list n x))))", "(g 3)", "(push 9 l)", "(+ 1 2)", "(do (f 7) (def l (list (f) x)))", "(f (f x))", "(if (f x) 1 2)", "(while (< x 8) (do (f 1) (setf x (+ x 1))))", "(let ((x 1)) (f x))", "(apply f (list x 2))", "(do (def h f) (h x))", "(type x)", "(== x 41)", "(reduce f '(1 2 3) 0)" };
static std::string hist(mc::W & w, const std::vector<int> & h)
{
	Run r; std::string pre;
	for (int k : h)
	{
		const std::string & o = OPS[k];
		if (o[0] == '$')
		{
			std::string n = o.substr(1, 1), t = o.substr(3);
			HostSpec v{ 'n', 0, 0, "", {} };
			if (t == "i") v = { 'i', 41, 0, "", {} }; else if (t == "d") v = { 'd', 0, 2.5, "", {} }; else if (t == "s") v = { 's', 0, 0, "txt", {} }; else if (t == "b") v = { 'b', 1, 0, "", {} }; else if (t == "y") v = { 'y', 0, 0, "l", {} };
			else if (t == "l") v = { 'l', 0, 0, "", { { 'i', 1, 0, "", {} }, { 's', 0, 0, "two", {} } } };
			else if (t == "ll") v = { 'l', 0, 0, "", { { 'l', 0, 0, "", { { 'i', 3, 0, "", {} } } }, { 'd', 0, 0.5, "", {} } } };
			r.var(n, v);
		}
		else if (o[0] == '!') { size_t b = o.find(' '); r.fun(o.substr(1, b - 1), o.substr(b + 1)); }
		else
		{
			std::string e = r.prog(w, o);
			if (e == "-") return "";
			if (!e.empty()) return pre + e;
		}
		pre += o + " | ";
		w.steps(1);
		std::string e = r.globals();
		if (!e.empty()) return pre + e;
		w.state(r.m.stateKey());
	}
	w.traces(1);
	return "";
}
static void explore(mc::W & w)
{
	for (auto c : POOL) for (int made = 0; made < 2; ++made)
	{
		for (auto op : UN) w.item([&]() { return std::string(made ? "made " : "") + c + " " + op; }, [&]() { return observe(w, c, { op }, made); });
		for (auto a : UN) for (auto b : UN) w.item([&]() { return std::string(made ? "made " : "") + c + " " + a + " " + b; }, [&]() { return observe(w, c, { a, b, a }, made); });
	}
	for (auto a : POOL) for (auto b : POOL) w.item([&]() { return std::string(a) + " , " + b; }, [&]() { return pairs(w, a, b); });
	for (int i = 0; i < NP; ++i) w.item([&]() { return std::string("order ") + POOL[i]; }, [&]() { return order(w, i); });
	// results of Lisp::Eval(script) with nothing else given
	for (auto c : POOL) w.item([&]() { return std::string("Eval ") + c; }, [&]() -> std::string { std::string err; ref::Interp m; ref::P p = value(m, c); HostValue h = fx::evalDefault(program(c), err); w.traces(1); w.steps(1); return err.empty() && h.valid() && h.repr() == ref::repr(p) ? "" : "expected " + ref::repr(p) + ", observed " + err + h.repr(); });
	int n = OPS.size();
	auto run = [&](const std::vector<int> & d) { w.item([&]() { std::string s; for (int k : d) s += OPS[k] + " | "; return s; }, [&]() { return hist(w, d); }); };
	for (int len = 1; len <= (w.thorough() ? 3 : 2); ++len) { mc::Odo o(len, n); do run(o.d); while (o.next()); }
	// variable, function, program, program
	for (int a = 0; a < 8; ++a) for (int f = 8; f < 22; ++f) for (int p = 22; p < n; ++p) { run({ a, f, p }); run({ f, p, a, p }); for (int q = 22; q < n; ++q) if (w.thorough() || a < 2) run({ a, f, p, q }); if (w.thorough()) for (int q = 8; q < 22; ++q) for (int p2 = 22; p2 < n; ++p2) run({ a, f, p, q, p2 }); }
}
int main(int c, char ** v)
{
	return mc::main(c, v, { "P39",
		"21 accessors of values, alone and in all pairs, on 41 values delivered by evaluations and built by the application; 13 operators, three comparisons and appending on all pairs of these values, the order of dictionary keys on all triples; all histories of <=2 (3) of 44 operations (variables of 7 kinds and functions of 14 behaviours added by the application, programs using them) and all histories variable, function, program, program",
		"a table of conversions by kind of value; the operators of the reference interpreter; laws of orders; the reference interpreter with the same functions and variables", { "strings that are no numbers, converted to numbers, are not judged", "CompareTo of other values than numbers, strings and symbols is only required to be consistent" }, explore });
}
