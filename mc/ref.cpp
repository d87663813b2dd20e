#include "ref.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <algorithm>
#include <climits>

namespace ref
{
	// ============================================================================ scanner
	const char * Tok::name(T t)
	{
		static const char * n[] = { "nil", "sym", "(", ")", "int", "dbl", "str", "'", "`", ",", ",@", "#t", "#f", ";" };
		return n[t];
	}
	static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
	static bool wholeInt(const std::string & s, long & v)
	{
		size_t i = 0;
		while (i < s.size() && blank(s[i])) ++i;
		size_t b = i;
		if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
		size_t dgt = i;
		while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
		if (i == dgt || i != s.size()) return false;
		__int128 r = 0;
		for (size_t j = dgt; j < i; ++j) { r = r * 10 + (s[j] - '0'); if (r > ((__int128)1 << 40)) return false; }
		if (s[b] == '-') r = -r;
		if (r > INT_MAX || r < INT_MIN) return false;
		v = (long)r;
		return true;
	}
	static bool wholeDouble(const std::string & s, double & v)
	{
		if (s.empty()) return false;
		char * e = 0;
		v = strtod(s.c_str(), &e);
		return e == s.c_str() + s.size() && e != s.c_str();
	}
	static std::string upper(std::string s) { for (auto & c : s) c = (char)toupper((unsigned char)c); return s; }
	static void classify(Tok & t, const std::string & w)
	{
		long i; double d;
		t.s = w;
		if (w == "'") t.t = Tok::Quote;
		else if (w == "`") t.t = Tok::Quasi;
		else if (w == ",") t.t = Tok::Unq;
		else if (w == ",@") t.t = Tok::UnqSpl;
		else if (w == "(") t.t = Tok::Open;
		else if (w == ")") t.t = Tok::Close;
		else if (wholeInt(w, i)) { t.t = Tok::Int; t.i = i; }
		else if (wholeDouble(w, d)) { t.t = Tok::Dbl; t.d = d; }
		else if (w == "true" || w == "#t") t.t = Tok::True;
		else if (w == "false" || w == "#f") t.t = Tok::False;
		else if (upper(w) == "NIL") t.t = Tok::Nil;
		else t.t = Tok::Sym;
	}
	std::vector<Tok> scan(const std::string & c, long off, bool * lenient)
	{
		std::vector<Tok> r;
		long begin = 0, line = 1;                // begin: position behind the previous token
		size_t i = 0, n = c.size();
		auto add = [&](Tok t, long stop) { t.start = begin - off; t.stop = stop - off; t.line = line; begin = stop + 1; r.push_back(t); };
		while (i < n)
		{
			char ch = c[i];
			if (blank(ch)) { if (ch == '\n') line++; ++i; continue; }
			if (ch == '(' || ch == ')') { Tok t; classify(t, std::string(1, ch)); add(t, (long)i); ++i; continue; }
			if (ch == '\'' || ch == '`' || ch == ',')
			{
				std::string w(1, ch);
				if (i + 1 < n && c[i + 1] == '@') { w += '@'; ++i; }
				Tok t; classify(t, w); add(t, (long)i); ++i; continue;
			}
			if (ch == ';')
			{
				size_t e = c.find('\n', i);
				std::string w = e == std::string::npos ? c.substr(i) : c.substr(i, e - i + 1);
				Tok t; t.t = Tok::Comment; t.s = w; add(t, (long)i);
				line++;
				i = e == std::string::npos ? n : e + 1;
				continue;
			}
			if (ch == '"')
			{
				std::string s; size_t j = i + 1; bool closed = false;
				for (; j < n; ++j)
				{
					char k = c[j];
					if (k == '"') { closed = true; break; }
					if (k == '\\')
					{
						if (j + 1 >= n) { throw Unspecified{ "backslash at the end" }; }
						char x = c[++j];
						if (x == 'n') s += '\n'; else if (x == 'r') s += '\r'; else if (x == 't') s += '\t';
						else if (x == '\\' || x == '"') s += x;
						else if (blank(x) || (x && strchr("();'`,", x))) { if (!lenient) throw Unspecified{ "backslash before a delimiter" }; *lenient = true; s += x; if (x == '\n') line++; }
						else throw Err{ "invalid escape" };
						continue;
					}
					if (k == '\n') line++;
					s += k;
				}
				if (!closed) throw Unspecified{ "unterminated string" };
				Tok t; t.t = Tok::Str; t.s = s; add(t, (long)j);
				i = j + 1;
				continue;
			}
			size_t j = i;
			while (j < n && !blank(c[j]) && !(c[j] && strchr("();'`,\"\\", c[j]))) ++j;
			if (j < n && c[j] == '\\') throw Unspecified{ "backslash outside of a string" };
			Tok t; classify(t, c.substr(i, j - i));
			if (j == n) { t.start = begin - off; t.stop = -1 - off; t.line = line; r.push_back(t); }
			else add(t, (long)j);
			i = j;
		}
		return r;
	}

	// ============================================================================ values
	P mk(Val::K k) { auto v = std::make_shared<Val>(); v->k = k; return v; }
	P mkInt(int i) { auto v = mk(Val::Int); v->i = i; return v; }
	P mkBool(bool b) { auto v = mk(Val::Bool); v->b = b; return v; }
	P mkDbl(double d) { auto v = mk(Val::Dbl); v->d = d; return v; }
	P mkStr(const std::string & s) { auto v = mk(Val::Str); v->s = s; return v; }
	P mkSym(const std::string & s) { auto v = mk(Val::Sym); v->s = s; return v; }
	P mkList(const L & l) { auto v = mk(Val::List); v->l = std::make_shared<L>(l); return v; }
	P mkRaw(const L & l) { auto v = mk(Val::Raw); v->l = std::make_shared<L>(l); return v; }
	P wrap(const P & v)
	{
		if (v->k != Val::Raw) return v;
		auto r = mk(Val::List); r->l = v->l; return r;
	}
	static bool isList(const P & v) { return v->k == Val::List || v->k == Val::Nil; }
	static bool isSym(const P & v) { return v->k == Val::Sym; }
	static const P & nilP() { static P n = mk(Val::Nil); return n; }
	// view of a value as an operand: a raw list (code) is none
	static P operand(const P & v) { return v->k == Val::Raw ? nilP() : v; }
	static std::string esc(const std::string & s)
	{
		std::string r = "\"";
		for (char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else if (c == '\r') r += "\\r";
			else r += c;
		}
		return r + "\"";
	}
	static std::string dbl(double d) { char b[64]; snprintf(b, sizeof b, "d%.15g", d); return b; }
	static long budget = 0;
	// a container that holds itself
	static bool cyclic(const P & v, std::vector<const void *> & path)
	{
		if (!v) return false;
		const void * id = v->l ? (const void *)v->l.get() : v->m ? (const void *)v->m.get() : nullptr;
		if (!id) return false;
		if (std::find(path.begin(), path.end(), id) != path.end()) return true;
		path.push_back(id);
		bool r = false;
		if (v->l) for (auto & e : *v->l) r = r || cyclic(e, path);
		if (v->m) for (auto & kv : *v->m) r = r || cyclic(kv.first, path) || cyclic(kv.second, path);
		path.pop_back();
		return r;
	}
	static std::string reprD(const P & v, int depth)
	{
		if (!v) return "<null>";
		if (depth > 60) return "<deep>";
		switch (v->k)
		{
			case Val::Undef: return "<undef>";
			case Val::Nil: return "NIL";
			case Val::Bool: return v->b ? "#t" : "#f";
			case Val::Int: return std::to_string(v->i);
			case Val::Dbl: return dbl(v->d);
			case Val::Str: return esc(v->s);
			case Val::Sym: return ":" + v->s;
			case Val::Fn: return "#<fn>";
			case Val::LVal: return "#<lvalue>";
			case Val::Native:
			{
				std::multiset<std::string> items;
				for (auto & kv : *v->m) items.insert(reprD(kv.first, depth + 1) + ":" + reprD(kv.second, depth + 1));
				std::string r = "{";
				for (auto & s : items) { if (r.size() > 1) r += ","; r += s; }
				return r + "}";
			}
			default:
			{
				std::string r = "("; bool f = true;
				for (auto & e : *v->l) { if (!f) r += " "; f = false; r += reprD(e, depth + 1); }
				return r + ")";
			}
		}
	}
	std::string repr(const P & v) { return reprD(v, 0); }
	std::string norm(const std::string & r) { return r == "<null>" ? "<undef>" : r; }
	static std::string quotedText(const P & v) { return v->k == Val::Str ? "\"" + v->s + "\"" : text(v); }
	static std::string textD(const P & v, int depth)
	{
		if (depth > 60 || --budget < 0) throw Unspecified{ "text of a container that holds itself" };
		switch (v->k)
		{
			case Val::Undef: return "<undefined>";
			case Val::Nil: return "NIL";
			case Val::Bool: return v->b ? "#t" : "#f";
			case Val::Int: return std::to_string(v->i);
			case Val::Dbl: return std::to_string(v->d);
			case Val::Str: case Val::Sym: return v->s;
			case Val::Fn: if (v->f->builtin) throw Unspecified{ "text of a builtin" }; return "function " + v->f->sig;
			case Val::LVal: return "?";
			case Val::Native:
			{
				std::string r;
				for (auto & kv : *v->m)
				{
					if (!r.empty()) r += ", ";
					r += "[" + (kv.first->k == Val::Str ? "\"" + kv.first->s + "\"" : textD(kv.first, depth + 1)) + " : "
						+ (kv.second->k == Val::Str ? "\"" + kv.second->s + "\"" : textD(kv.second, depth + 1)) + "]";
				}
				return "{ " + r + " }";
			}
			default:
			{
				std::string r; bool first = true;
				for (auto & e : *v->l)
				{
					if (!first) r += " ";
					first = false;
					r += e->k == Val::Str ? "\"" + e->s + "\"" : textD(e, depth + 1);
				}
				return "(" + r + ")";
			}
		}
	}
	std::string text(const P & v) { budget = 100000; return textD(v, 0); }
	// text used by concatenation
	static std::string catText(const P & v)
	{
		switch (v->k)
		{
			case Val::Str: case Val::Sym: case Val::Int: case Val::Dbl: return text(v);
			case Val::Bool: return v->b ? "true" : "false";
			default: throw Unspecified{ "text of a container in a concatenation" };
		}
	}
	static bool num(const P & v) { return v->k == Val::Int || v->k == Val::Dbl; }
	static int d2i(double d)
	{
		if (!(d > -2147483649.0 && d < 2147483648.0)) throw Unspecified{ "double out of the range of int" };
		return (int)d;
	}
	static int toInt(const P & v)
	{
		switch (v->k)
		{
			case Val::Bool: return v->b;
			case Val::Int: return v->i;
			case Val::Dbl: return d2i(v->d);
			case Val::Str:
			{
				char * e; errno = 0; long r = strtol(v->s.c_str(), &e, 10);
				if (r > INT_MAX || r < INT_MIN) throw Unspecified{ "number out of range" };
				return (int)r;
			}
			default: throw Err{ "no int" };
		}
	}
	static double toDbl(const P & v)
	{
		switch (v->k)
		{
			case Val::Bool: return v->b;
			case Val::Int: return v->i;
			case Val::Dbl: return v->d;
			case Val::Str: return strtod(v->s.c_str(), 0);
			default: throw Err{ "no double" };
		}
	}
	static int strictInt(const P & v0) { P v = operand(v0); if (v->k != Val::Int) throw Err{ "int expected" }; return v->i; }
	static bool strictBool(const P & v0) { P v = operand(v0); if (v->k != Val::Bool) throw Err{ "bool expected" }; return v->b; }
	static bool toBool(const P & v)
	{
		if (v->k == Val::Bool) return v->b;
		if (v->k == Val::Int) return v->i != 0;
		if (v->k == Val::Dbl) return fabs(v->d) > 1e-8;
		throw Err{ "no bool" };
	}
	static const L & items(const P & v)       // list contents of an operand
	{
		static const L none;
		if (v->k == Val::Nil || v->k == Val::Raw) return none;
		if (v->k != Val::List) throw Err{ "list expected" };
		return *v->l;
	}
	bool equal(const P & a0, const P & b0)
	{
		static int deep = 0;
		struct D { D() { ++deep; } ~D() { --deep; } } guard;
		if (deep > 100) throw Unspecified{ "comparison of containers that hold themselves" };
		P l = wrap(a0), r = wrap(b0);
		if (l->k == Val::Native && r->k == Val::Native) return l->m == r->m;
		if (isSym(l) || isSym(r)) return isSym(l) && isSym(r) && l->s == r->s;
		if (l->k == Val::Bool && r->k == Val::Bool) return l->b == r->b;
		if (l->k == Val::Nil || r->k == Val::Nil) return l->k == r->k;
		if (l->k == Val::List && r->k == Val::List)
		{
			if (l->l->size() != r->l->size()) return false;
			for (size_t i = 0; i < l->l->size(); ++i) if (!equal((*l->l)[i], (*r->l)[i])) return false;
			return true;
		}
		if (l->k == Val::Undef || r->k == Val::Undef) return l->k == r->k;
		if (l->k == Val::Str || r->k == Val::Str) return text(l) == text(r);
		if (l->k == Val::Dbl || r->k == Val::Dbl) return fabs(toDbl(l) - toDbl(r)) < 1e-8;
		if (l->k == Val::Int || r->k == Val::Int) return toInt(l) == toInt(r);
		throw Err{ "no ==" };
	}
	static bool lessThan(const P & l, const P & r, bool orEqual)
	{
		if (l->k == Val::Dbl || r->k == Val::Dbl) return orEqual ? toDbl(l) <= toDbl(r) : toDbl(l) < toDbl(r);
		if (l->k == Val::Int || r->k == Val::Int) return orEqual ? toInt(l) <= toInt(r) : toInt(l) < toInt(r);
		if (l->k == Val::Str || r->k == Val::Str)
		{
			int c = text(l).compare(text(r));
			return orEqual ? c <= 0 : c < 0;
		}
		throw Err{ "no order" };
	}
	static bool identical(const P & l, const P & r)     // same type and same contents
	{
		if (l->k != r->k) return false;
		switch (l->k)
		{
			case Val::Bool: return l->b == r->b;
			case Val::Int: return l->i == r->i;
			case Val::Dbl: return l->d == r->d;
			case Val::Str: case Val::Sym: return l->s == r->s;
			case Val::Nil: case Val::Undef: return true;
			case Val::List: if (l->l == r->l) return true; throw Unspecified{ "identity of lists" };
			default: throw Unspecified{ "identity" };
		}
	}
	bool KeyLess::operator()(const P & l, const P & r) const
	{
		auto rank = [](const P & v) { return v->k == Val::Str ? -2 : num(v) ? -1 : (int)v->k; };
		if (rank(l) != rank(r)) return rank(l) < rank(r);
		switch (l->k)
		{
			case Val::Int: case Val::Dbl:
			{
				double a = toDbl(l), b = toDbl(r);
				return std::isnan(a) || std::isnan(b) ? std::isnan(a) && !std::isnan(b) : a < b;
			}
			case Val::Bool: return l->b < r->b;
			case Val::Str: case Val::Sym: return l->s < r->s;
			case Val::Nil: case Val::Undef: return false;
			case Val::List: return l->l.get() < r->l.get();
			case Val::Native: return l->m.get() < r->m.get();
			case Val::Fn: return l->f.get() < r->f.get();
			default: return l.get() < r.get();
		}
	}
	static int wrapInt(long long v) { return (int)(unsigned)(unsigned long long)v; }
	static P arith(char op, const P & l, const P & r)
	{
		if (op == '+' && (l->k == Val::Str || r->k == Val::Str)) { std::string t = catText(l) + catText(r); if (t.size() > 4000) throw Diverges(); return mkStr(t); }
		if (l->k == Val::Dbl || r->k == Val::Dbl)
		{
			double a = toDbl(l), b = toDbl(r);
			switch (op) { case '+': return mkDbl(a + b); case '-': return mkDbl(a - b); case '*': return mkDbl(a * b); case '/': return mkDbl(a / b); default: return mkDbl(fmod(a, b)); }
		}
		if (l->k == Val::Int || r->k == Val::Int)
		{
			long long a = toInt(l), b = toInt(r);
			switch (op)
			{
				case '+': return mkInt(wrapInt(a + b)); case '-': return mkInt(wrapInt(a - b)); case '*': return mkInt(wrapInt(a * b));
				default:
					if (b == 0 || (b == -1 && a == INT_MIN)) throw Err{ "division" };
					return mkInt((int)(op == '/' ? a / b : a % b));
			}
		}
		if (op == '+' && isList(l) && isList(r))
		{
			L x = items(l); const L & y = items(r); if (x.size() + y.size() > 4000) throw Diverges(); x.insert(x.end(), y.begin(), y.end());
			return mkList(x);
		}
		throw Err{ "no operator" };
	}

	// ============================================================================ reader
	namespace
	{
		struct Reader
		{
			const std::vector<Tok> & t; size_t p = 0;
			bool more() { while (p < t.size() && t[p].t == Tok::Comment) ++p; return p < t.size(); }
			P item()
			{
				if (!more()) throw Err{ "unexpected end" };
				const Tok & k = t[p++];
				switch (k.t)
				{
					case Tok::Open:
					{
						L l;
						for (;;)
						{
							if (!more()) throw Err{ "unbalanced" };
							if (t[p].t == Tok::Close) { ++p; return mkRaw(l); }
							l.push_back(item());
						}
					}
					case Tok::Close: throw Err{ "unbalanced" };
					case Tok::Quote: return mkRaw({ mkSym("quote"), item() });
					case Tok::Quasi: return mkRaw({ mkSym("quasiquote"), item() });
					case Tok::Unq: return mkRaw({ mkSym("_unquote"), item() });
					case Tok::UnqSpl: return mkRaw({ mkSym("_unquotesplicing"), item() });
					default:
					{
						P v;
						if (k.t == Tok::Int) v = mkInt((int)k.i);
						else if (k.t == Tok::Dbl) v = mkDbl(k.d);
						else if (k.t == Tok::Str) v = mkStr(k.s);
						else if (k.t == Tok::True || k.t == Tok::False) v = mkBool(k.t == Tok::True);
						else if (k.t == Tok::Nil) v = mk(Val::Nil);
						else v = mkSym(k.s);
						v->tok = std::make_shared<Tok>(k);
						return v;
					}
				}
			}
		};
	}
	P read(const std::string & code, long off)
	{
		std::vector<Tok> t = scan(code, off);
		Reader r{ t };
		if (!r.more()) throw Unspecified{ "no code" };
		if (t[r.p].t != Tok::Open) throw Unspecified{ "text that is no list" };   // the evaluator always reads (do text)
		P v = r.item();
		if (r.more()) throw Err{ "code behind the end" };
		return v;
	}

	// ============================================================================ evaluator
	static bool isRaw(const P & v) { return v->k == Val::Raw; }
	P Interp::resolve(const P & sym, E env)
	{
		const std::string name = text(sym);
		for (E e = env; e; e = e->closure)
		{
			auto it = e->vars.find(name);
			if (it != e->vars.end()) return it->second;
		}
		auto it = global->vars.find(name);
		if (it != global->vars.end()) return it->second;
		P found; int n = 0;
		for (auto & m : modules)
		{
			auto v = m.second->vars.find(name);
			if (v != m.second->vars.end()) { if (!found) found = v->second; ++n; }
		}
		if (n > 1) throw Unspecified{ "name defined by several modules" };
		if (found) return found;
		return sym;
	}
	std::string Interp::norm(const std::string & path)
	{
		std::string r = path;
		while (r.compare(0, 2, "./") == 0) r = r.substr(2);
		for (size_t p; (p = r.find("//")) != std::string::npos; ) r.erase(p, 1);
		for (size_t p; (p = r.find("/./")) != std::string::npos; ) r.erase(p, 2);
		return r;
	}
	P Interp::evalValue(P ast, E env)
	{
		P r = evalAst(ast, env);
		return r ? r : mk(Val::Undef);
	}
	static std::string headName(const P & v) { return v->k == Val::Raw ? "" : v->k == Val::Fn ? "" : v->k == Val::Native ? "" : text(v); }
	P Interp::evalAst(P ast, E env)
	{
		if (++steps > maxSteps) throw Diverges();
		if (!ast) return nullptr;
		std::shared_ptr<L> code;
		if (isRaw(ast)) code = ast->l;
		else if (isSym(ast)) return wrap(resolve(ast, env));
		else if (ast->k == Val::List) code = ast->l;
		else return ast;
		L call = *code;                          // the code may be changed while it is evaluated
		if (call.empty()) return mk(Val::Nil);
		struct Depth { long & d; Depth(long & x, long m) : d(x) { if (++d > m) { --d; throw Diverges(); } } ~Depth() { --d; } } guard(depth, maxDepth);

		auto mit = macros.find(headName(call[0]));
		if (mit != macros.end())
		{
			if (mit->second.compileTime) throw Err{ "macro modus" };
			bool any = false;
			Macro m = mit->second;
			return evalAst(mkRaw(substMacro(m.formals, call, m.expr, env, any)), env);
		}
		std::shared_ptr<Tok> before = env->cur;
		if (!isRaw(call[0]) && call[0]->tok) env->cur = call[0]->tok;
		L res; bool special = false;
		for (size_t i = 0; i < call.size(); ++i)
		{
			res.push_back(special || !isSym(call[i]) ? call[i] : resolve(call[i], env));
			if (i == 0)
			{
				if (res[0]->k != Val::Fn) throw Err{ "function not found" };
				special = res[0]->f->special;
			}
		}
		if (tracing) out += "--> " + text(call[0]) + "\n";
		std::vector<P> args;
		for (size_t i = 1; i < res.size(); ++i)
		{
			P a = res[i];
			if (isRaw(a) && !special) a = evalValue(a, env);
			if (a->flag == 2 && isList(a)) { for (auto & e : items(a)) args.push_back(e); continue; }
			args.push_back(a);
		}
		if (onCall) onCall(call, env);
		P value = res[0]->f->call(*this, args, env);
		env->cur = before;
		return value;
	}
	P Interp::callFn(const P & f, std::vector<P> & args, E env) { return f->f->call(*this, args, env); }

	// ---- macros
	static bool sameSym(const P & a, const P & b) { return isSym(a) && isSym(b) && a->s == b->s; }
	static L substSym(const P & sym, const P & val, const L & expr, bool splice, bool & any)
	{
		L r;
		for (auto & e : expr)
		{
			if (sameSym(sym, e))
			{
				if (isRaw(val) && splice) r.insert(r.end(), val->l->begin(), val->l->end());
				else r.push_back(val);
				any = true;
			}
			else if (isRaw(e)) r.push_back(mkRaw(substSym(sym, val, *e->l, splice, any)));
			else r.push_back(e);
		}
		return r;
	}
	L Interp::substMacro(const L & formals, const L & call, const L & expr0, E env, bool & any)
	{
		bool dummy = false;
		L real(call.begin() + 1, call.end());
		P realList = mkList(real);
		L expr = substSym(mkSym("quoted-macro-args"), mkRaw({ mkSym("quote"), realList }), expr0, true, dummy);
		if (real.size() < formals.size()) throw Err{ "macro arguments" };
		std::vector<P> ph;
		for (size_t i = 0; i < formals.size(); ++i)
		{
			ph.push_back(mkSym("\x01macroarg" + std::to_string(i)));
			expr = substSym(operand(formals[i]), ph[i], expr, false, dummy);
		}
		for (size_t i = 0; i < ph.size(); ++i)
		{
			P v = call[i + 1];
			if (isRaw(v))
			{
				v = expand(v, env, any);
				if (!v) v = mk(Val::Undef);
			}
			expr = substSym(ph[i], v, expr, false, any);
		}
		return expr;
	}
	static P unwrapList(const P & v) { return isList(v) ? mkRaw(items(v)) : v; }
	P Interp::expandAll(P ast, E env)
	{
		bool any;
		int rounds = 0;
		do { any = false; ast = expand(ast, env, any); if (++rounds > 50) throw Diverges(); } while (any);
		return ast;
	}
	P Interp::expand(P ast, E env, bool & any)
	{
		if (++steps > maxSteps) throw Diverges();
		if (!ast || !isRaw(ast) || ast->l->empty()) return ast;
		const L list = *ast->l;
		P head = list[0];
		std::string name = isRaw(head) ? "" : text(head);
		if (!isRaw(head))
		{
			auto it = env->vars.find(name);
			if (it != env->vars.end() && it->second->k == Val::Fn && it->second->f->inExpand)
			{
				std::vector<P> args(list.begin() + 1, list.end());
				it->second->f->call(*this, args, env);
				return nullptr;
			}
			auto m = env->global ? macros.find(name) : macros.end();
			if (m != macros.end() && m->second.compileTime)
			{
				any = true;
				Macro mm = m->second;
				P code = mkRaw(substMacro(mm.formals, list, mm.expr, env, any));
				return unwrapList(evalValue(code, env));
			}
		}
		L r;
		for (auto & e : list)
		{
			P x = expandAll(e, env);
			if (x) r.push_back(unwrapList(x));
		}
		return mkRaw(r);
	}

	// ---- session
	P Interp::evalProgram(const std::string & code, E env, bool expandOnly, const std::string & module)
	{
		env->module = module;
		if (!env->inEval) env->inReturn = false;
		P ast = read("(do " + code + "\n)", 4);
		ast = expandAll(ast, env);
		if (expandOnly) return wrap(ast);
		return evalAst(ast, env);
	}
	Res Interp::eval(const std::string & code, bool expandOnly, const std::string & module)
	{
		Res r;
		steps = 0; depth = 0; budget = 100000;
		try
		{
			P v = evalProgram(code, global, expandOnly, module);
			std::vector<const void *> path;
			if (cyclic(v, path)) throw Unspecified{ "container that holds itself" };
			r.repr = repr(v); if (v) { try { r.text = text(v); } catch (Unspecified &) { r.text = "?"; } }
		}
		catch (Err & e) { r.kind = Res::Error; r.why = e.why; }
		catch (Unspecified & u) { r.kind = Res::Unspec; r.why = u.why; }
		catch (Diverges &) { r.kind = Res::Diverge; }
		if (r.kind == Res::Value || r.kind == Res::Error)
		{
			std::vector<const void *> path;
			for (auto & n : global->vars)
				if ((n.second->k == Val::List || n.second->k == Val::Native || n.second->k == Val::Raw) && cyclic(n.second, path)) { r.kind = Res::Unspec; r.why = "container that holds itself"; break; }
		}
		totalSteps += steps;
		return r;
	}
	std::string Interp::var(const std::string & n)
	{
		auto it = global->vars.find(n);
		return it == global->vars.end() ? "" : repr(it->second);
	}
	std::vector<std::string> Interp::names()
	{
		std::vector<std::string> r;
		for (auto & kv : global->vars)
			if (!(kv.second->k == Val::Fn && kv.second->f->builtin && kv.second->f->name == kv.first)) r.push_back(kv.first);
		return r;
	}
	static std::string pad(const std::string & s, int w) { size_t n = (size_t)abs(w); if (s.size() >= n) return s; std::string f(n - s.size(), ' '); return w < 0 ? s + f : f + s; }
	std::string Interp::stackText(E env, int current)
	{
		std::string r; int i = env->level();
		for (E e = env; e; e = e->previous, --i)
			r = (current == i ? "-->" : "   ") + pad(std::to_string(i), 5) + " name=" + pad(e->name, -35) + " lineno=" + pad(e->cur ? std::to_string(e->cur->line) : "18446744073709551615", -4) + " module=" + e->module + "\n" + r;
		return r;
	}
	static std::string typeName(const P & v)
	{
		static const char * n[] = { "Undefined", "Nil", "Bool", "Int", "Double", "String", "List", "Function", "Symbol", "NativeDictionary", "unknown_type", "List" };
		return n[v->k];
	}
	std::string Interp::varsText(E env)
	{
		std::string r;
		for (auto & kv : env->vars)
		{
			if (kv.first.compare(0, 3, "###") == 0) continue;
			P v = wrap(kv.second);
			if (v->k == Val::Fn && v->f->builtin) continue;
			r += pad(kv.first, 20) + " --> " + pad(v->k == Val::Str ? "\"" + v->s + "\"" : text(v), -40) + " : " + typeName(v) + " \n";
		}
		return r;
	}
	std::string Interp::stateKey()
	{
		std::string r;
		for (auto & n : names()) r += n + "=" + var(n) + ";";
		r += "|";
		for (auto & m : macros) r += m.first + ";";
		if (global->inReturn) r += "|ret";
		return r;
	}
}
#include "ref_lib.inc"
