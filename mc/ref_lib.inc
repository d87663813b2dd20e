// builtin functions of the reference model (included by ref.cpp)
namespace ref
{
	typedef std::vector<P> A;
	static void argc(const A & a, size_t n) { if (a.size() != n) throw Err{ "argument count" }; }
	static void argc(const A & a, size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) throw Err{ "argument count" }; }
	static P evalIfNeeded(Interp & I, const P & a, E e) { return isRaw(a) ? I.evalValue(a, e) : a; }
	template <class T> struct Restore { T & r; T v; Restore(T & x) : r(x), v(x) {} ~Restore() { r = v; } };
	static std::string sub(const std::string & s, size_t p, size_t n = std::string::npos)
	{
		if (p > s.size()) throw Err{ "substring" };
		return s.substr(p, n);
	}
	static std::string trimmed(const std::string & s)
	{
		size_t b = 0, e = s.size();
		while (b < e && blank(s[b])) ++b;
		while (e > b && blank(s[e - 1])) --e;
		return s.substr(b, e - b);
	}
	static std::string fmt(const std::string & f, const std::vector<std::string> & a)
	{
		std::string r;
		for (size_t p = 0; p < f.size(); ++p)
		{
			if (f[p] == '{' && p + 2 < f.size() && isdigit((unsigned char)f[p + 1]))
			{
				int n = f[p + 1] - '0';
				size_t k = p + 2; bool neg = false, width = false; long w = 0;
				if (f[k] == ',')
				{
					size_t q = k + 1;
					if (q < f.size() && f[q] == '-') { neg = true; ++q; }
					size_t d0 = q;
					while (q < f.size() && isdigit((unsigned char)f[q])) { w = w * 10 + (f[q] - '0'); if (w >= 1000000) throw Unspecified{ "width" }; ++q; }
					width = q > d0;
					k = q;
				}
				bool ok = k < f.size() && f[k] == '}' && (k == p + 2 || width);
				if (ok)
				{
					if (n > 4) throw Unspecified{ "placeholder number" };
					if ((size_t)n >= a.size()) throw Err{ "not enough items" };
					std::string s = a[n], pad(w > (long)s.size() ? w - s.size() : 0, ' ');
					r += neg ? s + pad : pad + s;
					p = k;
					continue;
				}
				if (f[p + 2] == ',') throw Unspecified{ "malformed placeholder" };
			}
			r += f[p];
		}
		return r;
	}
	static std::string joined(const A & a, E e)
	{
		std::string r;
		for (auto & x : a)
		{
			if (!r.empty()) r += " ";
			if (isRaw(x)) throw Unspecified{ "text of code" };
			r += text(x);
		}
		if (e->trace) { e->hasTrace = true; e->traceBuf += r; }
		return r;
	}
	static P parseInt(const P & v)
	{
		std::string s = text(v);
		long i;
		if (wholeInt(s, i)) return mkInt((int)i);
		return mk(Val::Undef);
	}
	static P parseFloat(const P & v)
	{
		std::string s = text(v); double d;
		if (!wholeDouble(s, d)) return mk(Val::Undef);
		if (!std::isfinite(d) || (d != 0 && fabs(d) < 1e-300)) throw Unspecified{ "limits of double" };
		return mkDbl(d);
	}
	static P makeFn(Interp & I, const A & args, E scope)
	{
		if (args.size() < 2) throw Err{ "fn" };
		auto f = std::make_shared<Fun>();
		f->sig = scope->userSig;
		P formalsP = args[0], body = args[1];
		std::string name = scope->defName, module = scope->module; f->module = module;
		f->call = [formalsP, body, scope, name, module](Interp & I, A & given, E caller) -> P
		{
			auto child = std::make_shared<Env>();
			L formals;
			if (isRaw(formalsP) || formalsP->k == Val::List) formals = *formalsP->l;
			else if (formalsP->k != Val::Nil) throw Err{ "formal arguments" };
			A a = given;
			while (a.size() < formals.size()) a.push_back(mk(Val::Nil));
			for (size_t i = 0; i < formals.size(); ++i)
			{
				if (isRaw(formals[i])) throw Unspecified{ "name of a formal argument" };
				child->vars[text(formals[i])] = a[i];
			}
			child->hasArgs = true; child->args = a;
			if (a.size() > formals.size()) child->vars["_additionalArgs"] = mkList(L(a.begin() + formals.size(), a.end()));
			child->closure = scope;
			child->needsL = caller->needsL;
			child->name = name; child->module = module; child->previous = caller;
			struct Pop { E c; ~Pop() { c->previous = nullptr; } } pop{ child };
			try { return I.evalAst(body, child); }
			catch (Err &) { if (I.onError) I.onError(body, child); throw; }
		};
		P v = mk(Val::Fn); v->f = f;
		return v;
	}
	static P defHelper(Interp & I, const A & a, E e, E target)
	{
		argc(a, 2);
		P s = evalIfNeeded(I, a[0], e);
		if (s->k != Val::Sym && s->k != Val::Str) throw Err{ "symbol expected" };
		P v = I.evalValue(a[1], e);
		target->vars[text(s)] = v;
		return v;
	}
	static P defnHelper(Interp & I, const A & a, E e, E target)
	{
		argc(a, 3);
		Restore<std::string> r(e->userSig);
		P fl = a[1];
		if (!isRaw(fl) && fl->k != Val::List && fl->k != Val::Nil) throw Err{ "formal arguments" };
		std::string sig = "(" + (isRaw(a[0]) ? std::string("?") : text(a[0]));
		if (fl->k != Val::Nil) for (auto & x : *fl->l) sig += " " + (isRaw(x) ? std::string("?") : text(x));
		e->userSig = sig + ")";
		Restore<std::string> rn(e->defName);
		{ P n = evalIfNeeded(I, a[0], e); e->defName = isRaw(n) ? "?" : n->k == Val::Sym || n->k == Val::Str ? text(n) : "?"; }
		P f = makeFn(I, { a[1], a[2] }, e);
		return defHelper(I, { a[0], f }, e, target);
	}
	static P lvalue(const P & container, long index, bool last)
	{
		P v = mk(Val::LVal);
		v->set = [container, index, last](P nv)
		{
			P c = operand(container);
			if (c->k == Val::Nil) throw Err{ "index" };
			if (c->k != Val::List) throw Err{ "list expected" };
			L & l = *c->l;
			size_t i = last ? l.size() - 1 : (size_t)index;
			if (l.empty() || i >= l.size()) throw Err{ "index" };
			l[i] = nv;
		};
		return v;
	}
	static P quasi(Interp & I, const L & expr, E e, bool & splice)
	{
		splice = false;
		if (expr.size() == 2 && isSym(expr[0]) && (expr[0]->s == "_unquote" || expr[0]->s == "_unquotesplicing"))
		{
			P v = I.evalValue(expr[1], e);
			splice = expr[0]->s == "_unquotesplicing";
			auto c = std::make_shared<Val>(*v);
			c->flag = splice ? 2 : 1;
			return c;
		}
		L r;
		for (auto & x : expr)
		{
			if (isRaw(x))
			{
				bool sp = false;
				P v = quasi(I, *x->l, e, sp);
				if (sp) { const L & y = items(operand(v)); r.insert(r.end(), y.begin(), y.end()); }
				else r.push_back(v);
			}
			else r.push_back(x);
		}
		return mkRaw(r);
	}
	static Dict & dict(const P & v0)
	{
		P v = operand(v0);
		if (v->k != Val::Native) throw Err{ "dictionary expected" };
		return *v->m;
	}
	void Interp::def(const std::string & name, bool special, std::function<P(Interp &, std::vector<P> &, E)> fn)
	{
		P v = mk(Val::Fn);
		v->f = std::make_shared<Fun>();
		v->f->name = name; v->f->special = special; v->f->builtin = true; v->f->call = fn;
		global->vars[name] = v;
	}
	Interp::~Interp() { global->vars.clear(); global->args.clear(); }
	Interp::Interp(bool library)
	{
		global = std::make_shared<Env>();
		global->name = "<main>";
		global->global = true;
		if (!library)
		{
			static const Interp proto(true);     // functions are immutable: sessions share them
			global->vars = proto.global->vars;
			return;
		}
		auto al = [&](const char * n, const char * old) { auto f = global->vars[old]->f; def(n, f->special, f->call); };

		// ---- arithmetic
		struct Op { const char * n; char c; };
		for (Op o : { Op{ "+", '+' }, Op{ "-", '-' }, Op{ "*", '*' }, Op{ "/", '/' }, Op{ "%", '%' } })
		{
			char c = o.c;
			def(o.n, false, [c](Interp &, A & a, E) -> P
			{
				if (c == '-' && a.size() == 1)
				{
					P v = wrap(a[0]);
					if (v->k == Val::Int) return mkInt(wrapInt(-(long long)v->i));
					if (v->k == Val::Dbl) return mkDbl(-v->d);
					throw Err{ "unary -" };
				}
				P r;
				for (auto & x : a) r = r ? arith(c, r, wrap(x)) : wrap(x);
				return r;
			});
		}
		al("add", "+"); al("string", "+"); al("sub", "-"); al("mul", "*"); al("div", "/"); al("mod", "%");
		def("<<", false, [](Interp &, A & a, E) { argc(a, 2); int x = strictInt(a[0]), y = strictInt(a[1]); return mkInt((int)((unsigned)x << (y & 31))); });
		def(">>", false, [](Interp &, A & a, E) { argc(a, 2); int x = strictInt(a[0]), y = strictInt(a[1]); return mkInt(x >> (y & 31)); });
		def("|", false, [](Interp &, A & a, E) { argc(a, 2); int x = strictInt(a[0]), y = strictInt(a[1]); return mkInt(x | y); });
		def("&", false, [](Interp &, A & a, E) { argc(a, 2); int x = strictInt(a[0]), y = strictInt(a[1]); return mkInt(x & y); });
		def("^", false, [](Interp &, A & a, E) { argc(a, 2); int x = strictInt(a[0]), y = strictInt(a[1]); return mkInt(x ^ y); });
		def("~", false, [](Interp &, A & a, E) { argc(a, 1); return mkInt(~strictInt(a[0])); });
		def("not", false, [](Interp &, A & a, E) { argc(a, 1); return mkBool(!strictBool(a[0])); });
		al("!", "not");
		auto O = [](const P & x) { return operand(x); };
		def("<", false, [O](Interp &, A & a, E) { argc(a, 2); return mkBool(lessThan(O(a[0]), O(a[1]), false)); });
		def("<=", false, [O](Interp &, A & a, E) { argc(a, 2); return mkBool(lessThan(O(a[0]), O(a[1]), true)); });
		def(">", false, [O](Interp &, A & a, E) { argc(a, 2); return mkBool(lessThan(O(a[1]), O(a[0]), false)); });
		def(">=", false, [O](Interp &, A & a, E) { argc(a, 2); return mkBool(lessThan(O(a[1]), O(a[0]), true)); });
		def("==", false, [O](Interp &, A & a, E) { argc(a, 2); return mkBool(equal(O(a[0]), O(a[1]))); });
		def("!=", false, [O](Interp &, A & a, E) { argc(a, 2); return mkBool(!equal(O(a[0]), O(a[1]))); });
		al("=", "=="); al("equal", "==");

		// ---- conversions and types
		def("type", false, [O](Interp &, A & a, E) { argc(a, 1); return mkInt((int)O(a[0])->k); });
		def("typestr", false, [O](Interp &, A & a, E)
		{
			argc(a, 1);
			static const char * n[] = { "Undefined", "Nil", "Bool", "Int", "Double", "String", "List", "Function", "Symbol", "NativeDictionary", "unknown_type", "?" };
			return mkStr(n[O(a[0])->k]);
		});
		def("parse-integer", false, [](Interp &, A & a, E) { argc(a, 1); return parseInt(wrap(a[0])); });
		def("parse-float", false, [](Interp &, A & a, E) { argc(a, 1); return parseFloat(wrap(a[0])); });
		def("int", false, [](Interp &, A & a, E)
		{
			argc(a, 1); P v = wrap(a[0]);
			if (v->k == Val::Int) return v;
			if (v->k == Val::Dbl) return mkInt(d2i(v->d));
			if (v->k == Val::Str) return parseInt(v);
			if (v->k == Val::Bool) return mkInt(v->b);
			return mk(Val::Undef);
		});
		def("float", false, [](Interp &, A & a, E)
		{
			argc(a, 1); P v = wrap(a[0]);
			if (v->k == Val::Int) return mkDbl(v->i);
			if (v->k == Val::Dbl) return v;
			if (v->k == Val::Str) return parseFloat(v);
			if (v->k == Val::Bool) return mkDbl(v->b);
			return mk(Val::Undef);
		});
		def("sym", false, [](Interp &, A & a, E) { argc(a, 1); return mkSym(text(wrap(a[0]))); });
		def("str", false, [](Interp &, A & a, E) { argc(a, 1); return mkStr(text(wrap(a[0]))); });

		// ---- strings
		def("search", false, [O](Interp &, A & a, E) -> P
		{
			argc(a, 2, 4);
			std::string s = text(wrap(a[0]));
			P src = O(a[1]);
			int pos = a.size() > 2 ? toInt(wrap(a[2])) : -1, len = a.size() > 3 ? toInt(wrap(a[3])) : -1;
			if (src->k == Val::Str)
			{
				if (pos < -1 || len < -1 || (a.size() > 3 && (pos < 0 || len < 0))) throw Unspecified{ "negative position" };
				if (pos == -1 && a.size() > 2) pos = 0;
				if (pos == -1) pos = 0;
				const std::string & t = src->s;
				for (size_t i = (size_t)pos; i <= t.size(); ++i)
				{
					if (a.size() > 3 && len >= 0 && i + s.size() > (size_t)pos + (size_t)len) break;
					if (i + s.size() <= t.size() && t.compare(i, s.size(), s) == 0) return mkInt((int)i);
				}
				return mkInt(-1);
			}
			if (isList(src))
			{
				int i = 0;
				for (auto & x : items(src)) { if (isRaw(x)) throw Unspecified{ "text of code" }; if (text(x) == s) return mkInt(i); ++i; }
				return mkInt(-1);
			}
			throw Err{ "search" };
		});
		def("slice", false, [](Interp &, A & a, E) { argc(a, 3); std::string s = text(wrap(a[0])); int p = toInt(wrap(a[1])), n = toInt(wrap(a[2])); return mkStr(n >= 0 ? sub(s, (size_t)p, (size_t)n) : sub(s, (size_t)p)); });
		def("replace", false, [](Interp &, A & a, E)
		{
			argc(a, 3);
			std::string s = text(wrap(a[0])), f = text(wrap(a[1])), t = text(wrap(a[2])), r;
			if (f.empty()) throw Unspecified{ "replace of the empty string" };
			for (size_t i = 0; i < s.size();)
			{
				if (s.compare(i, f.size(), f) == 0) { r += t; i += f.size(); }
				else r += s[i++];
			}
			return mkStr(r);
		});
		def("trim", false, [O](Interp &, A & a, E) { argc(a, 1); return mkStr(trimmed(text(O(a[0])))); });
		def("upper-case", false, [O](Interp &, A & a, E) { argc(a, 1); return mkStr(upper(text(O(a[0])))); });
		def("lower-case", false, [O](Interp &, A & a, E) { argc(a, 1); std::string s = text(O(a[0])); for (auto & c : s) c = (char)tolower((unsigned char)c); return mkStr(s); });
		def("format", false, [](Interp &, A & a, E)
		{
			argc(a, 1, 6);
			std::vector<std::string> v;
			for (size_t i = 1; i < a.size(); ++i) v.push_back(text(wrap(a[i])));
			return mkStr(fmt(text(wrap(a[0])), v));
		});

		// ---- output, input
		def("print", false, [](Interp & I, A & a, E e) { std::string t = joined(a, e); I.out += t; return mkStr(t); });
		def("println", false, [](Interp & I, A & a, E e) { std::string t = joined(a, e); I.out += t + "\n"; return mkStr(t); });
		def("flush", false, [](Interp &, A & a, E) { argc(a, 0); return mk(Val::Undef); });
		def("readline", false, [](Interp & I, A & a, E)
		{
			argc(a, 0);
			if (I.onReadLine) return mkStr(I.onReadLine());
			size_t e = I.input.find('\n', I.inPos);
			if (I.inPos >= I.input.size()) return mkStr("");   // behind the last line there are only empty ones
			std::string s = e == std::string::npos ? I.input.substr(I.inPos) : I.input.substr(I.inPos, e - I.inPos);
			I.inPos = e == std::string::npos ? I.input.size() : e + 1;
			return mkStr(s);
		});
		def("trace", false, [](Interp &, A & a, E e) { argc(a, 1); e->trace = strictBool(a[0]); return mkBool(e->trace); });
		def("gettrace", false, [](Interp &, A &, E e) { return mkStr(e->traceBuf); });
		def("need-l-value", false, [](Interp &, A & a, E e) { argc(a, 0); return mkBool(e->needsL); });
		def("delvar", false, [O](Interp & I, A & a, E e) { argc(a, 1); return mkBool(e->vars.erase(text(O(a[0]))) > 0); });
		def("break", false, [](Interp & I, A &, E e)
		{
			I.out += "break -> call stack:\n" + I.stackText(e, e->level()) + "\n";
			if (I.onBreak) I.onBreak(e); else I.out += "Warning: can not break, because no debugger support availabe!\n";
			return mk(Val::Undef);
		});
		def("vars", false, [](Interp & I, A &, E e) { I.out += "variables:\n" + I.varsText(e); return mk(Val::Undef); });
		def("nop", false, [](Interp &, A &, E) { return mk(Val::Undef); });
		def("return", false, [](Interp &, A & a, E e) { argc(a, 1); e->inReturn = true; return wrap(a[0]); });

		// ---- lists
		def("list", false, [](Interp &, A & a, E) { return mkList(a); });
		def("map", false, [](Interp & I, A & a, E e)
		{
			argc(a, 2);
			P f = operand(a[0]);
			if (f->k != Val::Fn) throw Err{ "map" };
			L src = isRaw(a[1]) ? *a[1]->l : items(a[1]), r;
			for (auto & x : src) { A v{ wrap(x) }; P y = I.callFn(f, v, e); r.push_back(y ? y : mk(Val::Undef)); }
			return mkList(r);
		});
		def("reduce", false, [](Interp & I, A & a, E e)
		{
			argc(a, 3);
			P f = operand(a[0]);
			if (f->k != Val::Fn) throw Err{ "reduce" };
			L src = isRaw(a[1]) ? *a[1]->l : items(a[1]);
			P acc = operand(a[2]);
			for (auto & x : src) { A v{ wrap(x), acc }; P y = I.callFn(f, v, e); acc = y ? y : mk(Val::Undef); }
			return acc;
		});
		def("cons", false, [](Interp &, A & a, E)
		{
			L r;
			if (a.size() > 0) r.push_back(a[0]);
			if (a.size() > 1)
			{
				P b = operand(a[1]);
				if (isList(b)) { const L & y = items(b); r.insert(r.end(), y.begin(), y.end()); }
				else r.push_back(a[1]);
			}
			return mkList(r);
		});
		def("len", false, [](Interp &, A & a, E)
		{
			argc(a, 1); P v = operand(a[0]);
			if (v->k == Val::Native) return mkInt((int)v->m->size());
			if (v->k == Val::Str) return mkInt((int)v->s.size());
			return mkInt((int)items(v).size());
		});
		def("first", false, [](Interp &, A & a, E e) -> P
		{
			argc(a, 1); P v = operand(a[0]);
			if (v->k == Val::Str) return mkStr(sub(v->s, 0, 1));
			if (e->needsL) return lvalue(a[0], 0, false);
			const L & l = items(v);
			if (l.empty()) throw Err{ "first" };
			return wrap(l[0]);
		});
		al("car", "first");
		def("last", false, [](Interp &, A & a, E e) -> P
		{
			argc(a, 1); P v = operand(a[0]);
			if (v->k == Val::Str) return mkStr(sub(v->s, v->s.size() - 1));
			if (e->needsL) return lvalue(a[0], 0, true);
			const L & l = items(v);
			if (l.empty()) throw Err{ "last" };
			return wrap(l.back());
		});
		def("rest", false, [](Interp &, A & a, E) -> P
		{
			argc(a, 1); P v = operand(a[0]);
			if (v->k == Val::Str) return mkStr(sub(v->s, 1));
			L l = items(v);
			if (!l.empty()) l.erase(l.begin());
			return mkList(l);
		});
		al("cdr", "rest");
		def("nth", false, [](Interp &, A & a, E e) -> P
		{
			argc(a, 2); int i = strictInt(a[0]); P v = operand(a[1]);
			if (v->k == Val::Str) return mkStr(sub(v->s, (size_t)i, 1));
			if (e->needsL) return lvalue(a[1], i, false);
			const L & l = items(v);
			if (i < 0 || (size_t)i >= l.size()) throw Err{ "nth" };
			return wrap(l[i]);
		});
		def("push", false, [](Interp &, A & a, E) -> P
		{
			argc(a, 2, 3);
			P v = operand(a[0]), c = operand(a[1]);
			int pos = a.size() > 2 ? toInt(operand(a[2])) : 0;
			if (!isList(c)) throw Err{ "push" };
			int n = c->k == Val::Nil ? 0 : (int)c->l->size();
			if (pos >= n) return mk(Val::Nil);
			if (pos < 0) throw Err{ "push" };
			c->l->insert(c->l->begin() + pos, v);
			return mkList(*c->l);
		});
		def("pop", false, [](Interp &, A & a, E) -> P
		{
			argc(a, 1, 2);
			P c = operand(a[0]);
			int pos = a.size() > 1 ? toInt(operand(a[1])) : 0;
			if (!isList(c)) throw Err{ "pop" };
			int n = c->k == Val::Nil ? 0 : (int)c->l->size();
			if (pos >= n) return mk(Val::Nil);
			if (pos < 0) throw Err{ "pop" };
			P x = (*c->l)[pos];
			c->l->erase(c->l->begin() + pos);
			return wrap(x);
		});
		def("append", false, [](Interp &, A & a, E)
		{
			L r;
			for (auto & x : a) { const L & y = items(operand(x)); r.insert(r.end(), y.begin(), y.end()); }
			return mkList(r);
		});
		def("reverse", false, [](Interp &, A & a, E) -> P
		{
			argc(a, 1); P v = operand(a[0]);
			if (v->k == Val::Str) return mkStr(std::string(v->s.rbegin(), v->s.rend()));
			L l = items(v);
			std::reverse(l.begin(), l.end());
			return mkList(l);
		});
		def("rval", true, [](Interp & I, A & a, E e) { argc(a, 1); Restore<bool> r(e->needsL); e->needsL = false; return evalIfNeeded(I, a[0], e); });

		// ---- functions
		auto margs = [](E e) -> L & { if (!e->hasArgs) throw Err{ "args" }; return e->args; };
		def("argscount", false, [margs](Interp &, A & a, E e) { argc(a, 0); return mkInt((int)margs(e).size()); });
		def("args", false, [margs](Interp &, A & a, E e) { argc(a, 0); return mkList(margs(e)); });
		def("arg", false, [margs](Interp &, A & a, E e) { argc(a, 1); int i = strictInt(a[0]); L & l = margs(e); if (i < 0 || (size_t)i >= l.size()) throw Err{ "arg" }; return wrap(l[i]); });
		def("apply", false, [](Interp & I, A & a, E e) -> P
		{
			argc(a, 2);
			P f = I.evalValue(a[0], e);
			P l = operand(a[1]);
			if (!isList(l)) throw Err{ "apply" };
			A v;
			for (auto & x : items(l)) v.push_back(wrap(x));
			if (f->k != Val::Fn) throw Err{ "apply" };
			return I.callFn(f, v, e);
		});
		def("eval", false, [](Interp & I, A & a, E e) -> P
		{
			argc(a, 1); P v = operand(a[0]);
			if (isList(v)) return I.evalAst(mkRaw(items(v)), e);
			return I.evalAst(v, e);
		});
		def("evalstr", false, [](Interp & I, A & a, E e) -> P
		{
			argc(a, 1); P v = operand(a[0]);
			Restore<bool> r(e->inEval);
			e->inEval = true;
			Restore<std::string> rm(e->module);
			return I.evalProgram(text(v), e, false, "<evalstr>:" + e->module + ":" + text(v));
		});

		// ---- files and modules
		def("import", false, [](Interp & I, A & a, E e) -> P
		{
			P r = mk(Val::Undef);
			for (auto & x : a)
			{
				P v = operand(x);
				if (v->k != Val::Str && v->k != Val::Sym) throw Unspecified{ "name of a module" };
				std::string name = v->s, f;
				for (char & c : name) if (c == '\\') c = '/';
				auto ext = [](const std::string & s) { return s.size() >= 5 && s.compare(s.size() - 5, 5, ".fuel") == 0 ? s : s + ".fuel"; };
				f = name;
				if (!I.isFile(f)) f = ext(I.libPath + "/" + name);
				if (!I.isFile(f)) f = ext("./Library/" + name);
				if (!I.isFile(f)) f = ext("./lib/fuel/" + name);
				if (!I.isFile(f) && I.hasFuelPath) f = ext(I.fuelPath + "/" + name);
				if (!I.isFile(f)) { I.out += "WARNING: Library " + name + " not found! Tried path " + f + "\n"; continue; }
				const std::string code = I.files[Interp::norm(f)];
				if (code.empty()) continue;
				E m = std::make_shared<Env>();
				if (++I.depth > I.maxDepth) { --I.depth; throw Diverges(); }
				m->name = "import " + f; m->previous = e;
				struct Pop { E c; ~Pop() { c->previous = nullptr; } } pop{ m };
				try { r = I.evalProgram(code, m, false, f); } catch (...) { --I.depth; throw; }
				--I.depth;
				I.modules[f] = m;
			}
			return r;
		});
		def("File-Exists", false, [](Interp & I, A & a, E) { argc(a, 1); return mkBool(I.isFile(text(operand(a[0])))); });
		def("File-ReadAllText", false, [](Interp & I, A & a, E) { argc(a, 1); auto it = I.files.find(Interp::norm(text(operand(a[0])))); return mkStr(it == I.files.end() ? "" : it->second); });
		def("File-WriteAllText", false, [](Interp & I, A & a, E)
		{
			argc(a, 2);
			std::string f = Interp::norm(text(operand(a[0]))), c = text(operand(a[1]));
			std::string dir = f.find('/') == std::string::npos ? "" : f.substr(0, f.rfind('/'));
			bool ok = !f.empty() && (dir.empty() || std::find(I.dirs.begin(), I.dirs.end(), dir) != I.dirs.end()) && std::find(I.dirs.begin(), I.dirs.end(), f) == I.dirs.end();
			if (ok) I.files[f] = c;
			return mkBool(ok);
		});

		// ---- dictionaries
		def("make-dict", false, [](Interp &, A & a, E) { argc(a, 0); P v = mk(Val::Native); v->m = std::make_shared<Dict>(); return v; });
		def("dict-set", false, [](Interp &, A & a, E)
		{
			argc(a, 3); Dict & d = dict(a[0]); P k = operand(a[1]); P v = operand(a[2]);
			auto it = d.find(k);
			if (it == d.end()) d[k] = v; else it->second = v;
			return v;
		});
		def("dict-get", false, [](Interp &, A & a, E) { argc(a, 2); Dict & d = dict(a[0]); auto it = d.find(operand(a[1])); return it == d.end() ? mk(Val::Undef) : it->second; });
		def("dict-remove", false, [](Interp &, A & a, E) { argc(a, 2); return mkBool(dict(a[0]).erase(operand(a[1])) > 0); });
		def("dict-keys", false, [](Interp &, A & a, E) { argc(a, 1); L r; for (auto & kv : dict(a[0])) r.push_back(kv.first); return mkList(r); });
		def("dict-clear", false, [](Interp &, A & a, E) { argc(a, 1); dict(a[0]).clear(); return mk(Val::Undef); });
		def("dict-contains-key", false, [](Interp &, A & a, E) { argc(a, 2); return mkBool(dict(a[0]).count(operand(a[1])) > 0); });
		def("dict-contains-value", false, [](Interp &, A & a, E)
		{
			argc(a, 2); P v = operand(a[1]);
			for (auto & kv : dict(a[0])) if (identical(kv.second, v)) return mkBool(true);
			return mkBool(false);
		});

		// ---- special forms
		def("and", true, [](Interp & I, A & a, E e) { for (auto & x : a) if (!strictBool(I.evalValue(x, e))) return mkBool(false); return mkBool(true); });
		def("or", true, [](Interp & I, A & a, E e) { for (auto & x : a) if (strictBool(I.evalValue(x, e))) return mkBool(true); return mkBool(false); });
		al("&&", "and"); al("||", "or");
		def("def", true, [](Interp & I, A & a, E e) { return defHelper(I, a, e, e); });
		def("gdef", true, [](Interp & I, A & a, E e) { return defHelper(I, a, e, I.global); });
		def("setf", true, [](Interp & I, A & a, E e) -> P
		{
			argc(a, 2);
			P place;
			{ Restore<bool> r(e->needsL); e->needsL = true; place = evalIfNeeded(I, a[0], e); }
			std::string name = place->k == Val::LVal ? "" : isRaw(place) ? "" : text(place);
			P v = I.evalValue(a[1], e);
			if (place->k == Val::LVal) { place->set(v); return v; }
			for (E s = e; s; s = s->closure) if (s->vars.count(name)) { s->vars[name] = v; return v; }
			if (I.global->vars.count(name)) { I.global->vars[name] = v; return v; }
			throw Err{ "symbol not found" };
		});
		def("define-macro", true, [](Interp & I, A & a, E) -> P
		{
			argc(a, 3);
			if (!isRaw(a[1]) || !isRaw(a[2])) throw Err{ "list expected" };
			if (isRaw(a[0])) throw Unspecified{ "macro name" };
			Macro m; m.formals = *a[1]->l; m.expr = *a[2]->l;
			I.macros[text(a[0])] = m;
			return nullptr;
		});
		al("define-macro-eval", "define-macro");
		def("define-macro-expand", false, [](Interp & I, A & a, E e) -> P
		{
			argc(a, 3);
			if (isRaw(a[0])) throw Unspecified{ "macro name" };
			P x = I.expandAll(isRaw(a[2]) ? mkRaw(*a[2]->l) : mkRaw({ a[2] }), e);
			if (!x) throw Err{ "expression expected" };
			if (!isRaw(x)) throw Err{ "list expected" };
			Macro m; m.compileTime = true;
			m.formals = isRaw(a[1]) ? *a[1]->l : L{ a[1] };
			m.expr = *x->l;
			I.macros[text(a[0])] = m;
			return nullptr;
		});
		global->vars["define-macro-expand"]->f->inExpand = true;
		def("quote", true, [](Interp &, A & a, E) { argc(a, 1); return isRaw(a[0]) ? mkList(*a[0]->l) : a[0]; });
		def("quasiquote", true, [](Interp & I, A & a, E e) { argc(a, 1); if (!isRaw(a[0])) return a[0]; bool sp; return wrap(quasi(I, *a[0]->l, e, sp)); });
		def("_unquote", true, [](Interp &, A & a, E) { argc(a, 1); return wrap(a[0]); });
		def("_unquotesplicing", true, [](Interp &, A & a, E) { argc(a, 1); return wrap(a[0]); });
		def("if", true, [](Interp & I, A & a, E e) -> P
		{
			argc(a, 2, 3);
			bool c = strictBool(I.evalValue(a[0], e));
			if (c) return I.evalAst(a[1], e);
			return a.size() > 2 ? I.evalAst(a[2], e) : nullptr;
		});
		def("while", true, [](Interp & I, A & a, E e) -> P
		{
			argc(a, 2);
			P r = mk(Val::Undef);
			while (toBool(I.evalValue(a[0], e)))
			{
				if (++I.steps > I.maxSteps) throw Diverges();
				r = I.evalAst(a[1], e);
				if (e->inReturn) break;
			}
			return r;
		});
		def("do", true, [](Interp & I, A & a, E e) -> P
		{
			P r = mk(Val::Undef);
			for (auto & s : a)
			{
				if (!isRaw(s)) throw Err{ "list expected in do" };
				r = I.evalAst(s, e);
				if (e->inReturn) break;
			}
			return r;
		});
		al("begin", "do");
		def("fn", true, [](Interp & I, A & a, E e) { return makeFn(I, a, e); });
		al("lambda", "fn");
		def("defn", true, [](Interp & I, A & a, E e) { return defnHelper(I, a, e, e); });
		def("gdefn", true, [](Interp & I, A & a, E e) { return defnHelper(I, a, e, I.global); });

		// ---- math
		def("Math-Pi", false, [](Interp &, A & a, E) { argc(a, 0); return mkDbl(3.141592653589793238463); });
		struct M { const char * n; double (*f)(double); };
		for (M m : { M{ "Math-Sin", sin }, M{ "Math-Sinh", sinh }, M{ "Math-Asin", asin }, M{ "Math-Cos", cos }, M{ "Math-Cosh", cosh }, M{ "Math-Acos", acos },
			M{ "Math-Tan", tan }, M{ "Math-Tanh", tanh }, M{ "Math-Atan", atan }, M{ "Math-Exp", exp }, M{ "Math-Log", log }, M{ "Math-Log10", log10 }, M{ "Math-Sqrt", sqrt },
			M{ "Math-Round", round }, M{ "Math-Truncate", trunc }, M{ "Math-Abs", fabs }, M{ "Math-Floor", floor }, M{ "Math-Ceiling", ceil } })
		{
			auto f = m.f;
			def(m.n, false, [f](Interp &, A & a, E) { argc(a, 1); return mkDbl(f(toDbl(operand(a[0])))); });
		}
		def("Math-Pow", false, [](Interp &, A & a, E) { argc(a, 2); double x = toDbl(operand(a[0])), y = toDbl(operand(a[1])); return mkDbl(pow(x, y)); });
	}

	// what the functions and macros of the standard library (fuellib) are documented to do, without
	// looking at the library
	void Interp::library()
	{
		auto arg = [](const A & a, size_t i) { return i < a.size() ? a[i] : mk(Val::Nil); };
		auto call = [](Interp & I, const char * f, A a, E e) { return I.global->vars[f]->f->call(I, a, e); };
		def("platform", false, [](Interp &, A &, E) { return mkList({ mkStr("UNIX"), mkStr("C++"), mkStr(sizeof(void *) == 8 ? "64bit" : "32bit") }); });
		def("isCpp", false, [](Interp &, A &, E) { return mkBool(true); });
		def("isNET", false, [](Interp &, A &, E) { return mkBool(false); });
		def("isHaxe", false, [](Interp &, A &, E) { return mkBool(false); });
		for (auto n : { "length", "strlen", "dict-len" }) def(n, false, [arg, call](Interp & I, A & a, E e) { return call(I, "len", { arg(a, 0) }, e); });
		def("second", false, [arg, call](Interp & I, A & a, E e) { Restore<bool> r(e->needsL); bool l = e->needsL; e->needsL = false; P x = call(I, "rest", { arg(a, 0) }, e); e->needsL = l; return call(I, "first", { x }, e); });
		def("find", false, [arg, call](Interp & I, A & a, E e)
		{
			P key = operand(arg(a, 0)), l = arg(a, 1);
			Restore<bool> r(e->needsL); e->needsL = false;
			int n = call(I, "len", { l }, e)->i;
			for (int i = 0; i < n; ++i) { P x = operand(call(I, "nth", { mkInt(i), l }, e)); if (ref::equal(key, x)) return mkInt(i); }
			return mkInt(-1);
		});
		def("foreach", false, [arg, call](Interp & I, A & a, E e) -> P
		{
			P l = arg(a, 0), f = operand(arg(a, 1));
			Restore<bool> r(e->needsL); e->needsL = false;
			int n = call(I, "len", { l }, e)->i;
			if (n == 0) return mk(Val::Undef);
			for (int i = 0; i < n; ++i)
			{
				P x = call(I, "nth", { mkInt(i), l }, e);
				if (f->k != Val::Fn) throw Err{ "foreach" };
				A v{ x };
				I.callFn(f, v, e);
			}
			return mkInt(n);
		});
		auto symbols = [](const P & n) { L r; for (int i = 0; lessThan(mkInt(i), n, false); ++i) r.push_back(mkSym("p" + std::to_string(i))); return r; };
		def("arg-list-expression", false, [arg, symbols](Interp &, A & a, E) { return mkList(symbols(operand(arg(a, 0)))); });
		def("arg-list-with-obj-expression", false, [arg, symbols](Interp &, A & a, E) { L r{ arg(a, 0) }, s = symbols(operand(arg(a, 1))); r.insert(r.end(), s.begin(), s.end()); return mkList(r); });
		def("create-call-expression", false, [arg, symbols](Interp &, A & a, E)
		{
			L r{ arg(a, 0) }, s = symbols(operand(arg(a, 3)));
			if (operand(arg(a, 2))->k != Val::Nil) r.push_back(arg(a, 2));
			r.push_back(mkSym(text(wrap(arg(a, 1)))));
			r.insert(r.end(), s.begin(), s.end());
			return mkList(r);
		});
		def("setq", true, [call](Interp & I, A & a, E e) { if (a.size() != 2) throw Unspecified{ "setq" }; return call(I, "setf", { a[0], a[1] }, e); });
		def("dotimes", true, [](Interp & I, A & a, E e) -> P
		{
			if (a.size() != 2 || !isRaw(a[0]) || a[0]->l->size() != 2 || !isSym((*a[0]->l)[0])) throw Unspecified{ "dotimes" };
			P sym = (*a[0]->l)[0], count = (*a[0]->l)[1];
			e->vars[sym->s] = mkInt(0);
			while (lessThan(operand(I.resolve(sym, e)), operand(I.evalValue(count, e)), false))
			{
				if (++I.steps > I.maxSteps) throw Diverges();
				P r = I.evalAst(a[1], e);
				if (e->inReturn) return r;
				P next = arith('+', wrap(I.resolve(sym, e)), mkInt(1));
				bool found = false;
				for (E s = e; s && !found; s = s->closure) if (s->vars.count(sym->s)) { s->vars[sym->s] = next; found = true; }
				if (!found && I.global->vars.count(sym->s)) { I.global->vars[sym->s] = next; found = true; }
				if (!found) throw Err{ "counter" };
			}
			return mkBool(e->vars.erase(sym->s) > 0);
		});
		def("defstruct", true, [](Interp & I, A & a, E e) -> P
		{
			if (a.empty() || isRaw(a[0])) throw Unspecified{ "name of a struct" };
			P nm = I.evalValue(a[0], e);
			if (nm->k != Val::Sym && nm->k != Val::Str) throw Unspecified{ "name of a struct" };
			std::string name = text(nm);
			std::vector<std::string> fields;
			for (size_t i = 1; i < a.size(); ++i) { if (!isSym(a[i])) throw Unspecified{ "field of a struct" }; fields.push_back(a[i]->s); }
			auto put = [e](const std::string & n, std::function<P(Interp &, A &, E)> f) { P v = mk(Val::Fn); v->f = std::make_shared<Fun>(); v->f->name = n; v->f->call = f; e->vars[n] = v; };
			size_t n = fields.size();
			put("make-" + name, [n, name](Interp &, A & a, E) { L r{ mkSym("#" + name) }; for (size_t i = 0; i < n; ++i) r.push_back(i < a.size() ? a[i] : mk(Val::Nil)); return mkList(r); });
			put("is-" + name + "-p", [name](Interp &, A & a, E)
			{
				if (a.empty()) return mkBool(false);
				P v = operand(a[0]);
				return mkBool(v->k == Val::List && !v->l->empty() && isSym(operand((*v->l)[0])) && operand((*v->l)[0])->s == "#" + name);
			});
			for (size_t k = 0; k < n; ++k) put("get-" + name + "-" + fields[k], [k](Interp & I, A & a, E e) { A x{ mkInt((int)k + 1), a.empty() ? mk(Val::Nil) : a[0] }; return I.global->vars["nth"]->f->call(I, x, e); });
			e->vars.erase("__i");
			return mkBool(false);
		});
	}
}
