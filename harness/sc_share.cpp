/*
 * C18: two threads (and main) each own variables that share storage. Each runs operations on its own;
 * every thread must see what it sees when it runs alone on a value that shares nothing, in every
 * interleaving; the scheduler reports data races, use of released storage, double release and leaks.
 */
#include "scenario.h"
#include <pthread.h>
#include <cstdio>
#include <cstring>
#include <climits>
#include <cassert>
#include <strval.h>
#include <array.h>
#include <cowmap.h>
#include <variant.h>
#include <error.h>

static void add(char*& p, char* e, const char* s, size_t n) { while (n-- && p < e-1) *p++ = *s++; *p = 0; }
struct Out {
	char *b, *p;
	Out(int slot) : b(sched_ghost(slot)), p(b) { *b = 0; }
	void s(const char* t, size_t n) { add(p, b+2048, t, n); }
	void s(const char* t) { s(t, strlen(t)); }
	void n(long v) { char t[24]; int k = snprintf(t, sizeof t, "%ld ", v); s(t, k); }
	void v(const StrVal& x) { StrValIndex k; const char* t = x.asUTF8(k); s("'"); s(t, k); s("' "); n(x.length()); }
	bool is(const Out& o) const { return p-b == o.p-o.b && memcmp(b, o.b, p-b) == 0; }
};

/*--- strings ---*/
static StrVal str_make(int which)
{
	switch (which) {
	case 0: return StrVal("abcd1");
	case 1: { StrVal s("a\xC3\xA9\xE4\xB8\x96" "b"); s.insert(2, "\xC3\x9F"); return s; }	// not ASCII, changed after it was made
	case 2: return StrVal("");
	default: { StrVal s("aB", 2, 40); return s; }						// room to grow
	}
}
static const int STR_BASES = 4;
static StrVal str_view(const StrVal& s, int v)
{
	switch (v) {
	case 0: return s;
	case 1: return s.substr(1);
	default: return s.length() ? s.substr(0, s.length()-1) : s;
	}
}
static const int STR_VIEWS = 3;
static void str_op(StrVal& s, int op, Out& o)
{
	static const char* const N[] = { "read", "asUTF8", "substr", "+= x", "insert", "shorter", "toUpper", "toLower", "+", "copy and change the copy",
		"assign", "assign empty", "find", "transform", "*", "asJSON", "asInt32", "+= self", "add slices" };
	mc_note("%s", N[op]);
	switch (op) {
	case 0: for (unsigned i = 0; i <= s.length(); i++) o.n(s[i]); o.n(s.numBytes()); break;
	case 1: o.s(s.asUTF8()); break;
	case 2: { StrVal t = s.substr(1, 2); o.v(t); o.n(t.compare(s)); break; }
	case 3: s += StrVal("x"); break;
	case 4: s.insert(s.length()/2, "\xC3\xA9z"); break;
	case 5: s = s.shorter(1); break;
	case 6: s.toUpper(); break;
	case 7: s.toLower(); break;
	case 8: { StrVal t = s + "q"; o.v(t); break; }
	case 9: { StrVal t = s; t.append("\xE4\xB8\x96"); o.v(t); break; }
	case 10: s = StrVal("new"); break;
	case 11: s = StrVal(""); break;
	case 12: o.n(s.find('b')); o.n(s.rfind(StrVal("b"))); o.n(s.findAny("bz")); break;
	case 13: s.transform([](const char*& cp, const char*) { UTF8Get(cp); return StrVal("yy"); }, 0); break;
	case 14: { StrVal t = s*2; o.v(t); break; }
	case 15: o.v(s.asJSON()); break;
	case 16: { ErrNum e; o.n(s.asInt32(&e)); o.n(e); break; }
	case 17: s += s; break;
	case 18: { StrVal h = s.head(1), t = s.tail(s.length() ? s.length()-1 : 0); h += t; o.v(h); break; }
	}
}
static const int STR_OPS = 19;
static void str_show(const StrVal& s, Out& o) { o.v(s); }

/*--- arrays ---*/
typedef Array<int> IntArray;
static IntArray int_make(int which) { static const int D[] = { 5, 3, 4, 3 }; return which == 0 ? IntArray(D, 4) : which == 1 ? IntArray() : IntArray(D, 3, 12); }
template<class A> static A arr_view(const A& a, int v) { return v == 0 ? a : v == 1 ? a.slice(1) : a.shorter(1); }
static void put(Out& o, int i) { o.n(i); }
static void put(Out& o, const StrVal& s) { o.v(s); }
static void put(Out& o, const StrRef& s) { o.v(StrVal(s)); }
template<class A> static void arr_show(const A& a, Out& o) { o.n(a.length()); for (int i = 0; i < (int)a.length(); i++) put(o, a[i]); }
template<class A, class V> static void arr_op(A& a, int op, Out& o)
{
	typedef typename A::Element E;
	static const char* const N[] = { "read", "append", "insert", "remove", "set", "reverse", "delete_if", "pull, shift", "+", "copy and change the copy",
		"assign", "clear", "find, slice", "+= self" };
	mc_note("%s", N[op]);
	V x = V(); if (a.length() > 1) x = a[1];
	switch (op) {
	case 0: arr_show(a, o); break;
	case 1: a.append(x); break;
	case 2: { A b(a.head(1)); a.insert(a.length()/2, b); break; }
	case 3: if (a.length()) a.remove(a.length()/2, 1); break;
	case 4: if (a.length()) a.set(0, x); break;
	case 5: a.reverse(); break;
	case 6: a.delete_if([&](const E& e) { return V(e) == x; }); break;
	case 7: if (a.length()) put(o, a.pull()); if (a.length()) put(o, a.shift()); break;
	case 8: { A b = a + a; arr_show(b, o); break; }
	case 9: { A b = a; b += x; if (b.length()) b.set(0, x); arr_show(b, o); break; }
	case 10: a = A(&x, 1); break;
	case 11: a.clear(); a += x; break;
	case 12: o.n(a.find([&](const E& e) { return V(e) == x; })); o.n(a.rfind([&](const E& e) { return V(e) == x; })); { A b = a.slice(1, 2); arr_show(b, o); } break;
	case 13: a += a; break;
	}
}
static const int ARR_OPS = 14;
static void int_op(IntArray& a, int op, Out& o) { arr_op<IntArray, int>(a, op, o); }
static void int_show(const IntArray& a, Out& o) { arr_show(a, o); }
static IntArray int_view(const IntArray& a, int v) { return arr_view(a, v); }

static StringArray strs_make(int which)
{
	StrVal t("\xC3\xA9tx");
	StrVal d[3] = { t, t.substr(1), StrVal("") };
	if (which == 0) return StringArray(d, 3);
	StringArray a; a << t << t.head(2); return a;
}
static StringArray strs_view(const StringArray& a, int v) { return v == 0 ? a : v == 1 ? StringArray(a.slice(1)) : StringArray(a.shorter(1)); }
static void strs_op(StringArray& a, int op, Out& o)
{
	if (op == ARR_OPS) { mc_note("change a copy of an element"); if (a.length()) { StrVal s = a[0]; s += "k"; s.toUpper(); o.v(s); } }
	else if (op == ARR_OPS+1) { mc_note("change an element in place"); if (a.length()) { StrVal s = a.elem_mut(0); s += StrVal("k"); a.elem_mut(0) = s; } }
	else arr_op<StringArray, StrVal>(a, op, o);
}
static void strs_show(const StringArray& a, Out& o) { arr_show(a, o); }

/*--- maps ---*/
typedef CowMap<StrVal, StrVal> Map;
static Map map_make(int which)
{
	Map m; if (which == 1) return m;
	StrVal t("v\xC3\xA9w"); m.insert("a", t); m.insert("b", t.substr(1)); return m;
}
static Map map_view(const Map& m, int) { return m; }
static void map_show(const Map& m, Out& o) { o.n(m.size()); for (auto it = m.begin(); it != m.end(); it++) { o.v(it->first); o.v(it->second); } }
static void map_op(Map& m, int op, Out& o)
{
	static const char* const N[] = { "read", "[], contains", "put new", "put existing", "insert", "remove", "clear", "copy and change the copy", "keys, values", "assign", "change a copy of a value" };
	mc_note("%s", N[op]);
	switch (op) {
	case 0: map_show(m, o); break;
	case 1: o.v(m["a"]); o.n(m.contains("b")); o.n(m.contains("z")); break;
	case 2: m.put("n", StrVal("1")); break;
	case 3: m.put("a", StrVal("2")); break;
	case 4: m.insert("i", StrVal("3")); break;
	case 5: m.remove("a"); break;
	case 6: m.clear(); break;
	case 7: { Map k = m; k.put("c", StrVal("4")); k.remove("b"); map_show(k, o); break; }
	case 8: { Array<StrVal> k = m.keys(), v = m.values(); arr_show(k, o); arr_show(v, o); break; }
	case 9: { Map k; k.insert("q", StrVal("5")); m = k; break; }
	case 10: { StrVal s = m["a"]; s += StrVal("k"); o.v(s); break; }
	}
}
static const int MAP_OPS = 11;

/*--- variants ---*/
static Variant var_make(int which)
{
	StrVal t("7"); StrVal d[2] = { t, StrVal("q") };
	switch (which) {
	case 0: return Variant(t);
	case 1: return Variant(StringArray(d, 2));
	case 2: { Variant e[2] = { Variant(t), Variant(StringArray(d, 1)) }; return Variant(VariantArray(e, 2)); }
	default: { Variant e[2] = { Variant(t), Variant(StringArray(d, 1)) }; return Variant(d, e, 2); }
	}
}
static Variant var_view(const Variant& v, int) { return v; }
static void var_show(const Variant& v, Out& o)
{
	o.n(v.type());
	switch (v.type()) {
	case Variant::Integer: o.n(v.as_int()); break;
	case Variant::String: o.v(v.as_strval()); break;
	case Variant::StrArray: { const StringArray a = v.as_string_array(); for (int i = 0; i < (int)a.length(); i++) o.v(a[i]); break; }
	case Variant::VarArray: { const VariantArray a = v.as_variant_array(); for (int i = 0; i < (int)a.length(); i++) { o.s("["); var_show(a[i], o); } break; }
	case Variant::StrVarMap: { const StrVariantMap m = v.as_variant_map(); for (auto i = m.begin(); i != m.end(); i++) { o.s("{"); o.v(i->first); var_show(i->second, o); } break; }
	default: break;
	}
}
static void var_op(Variant& v, int op, Out& o)
{
	static const char* const N[] = { "as_json", "copy, assign the copy", "assign", "convert", "change a copy of the content", "assign itself", "put into an array" };
	mc_note("%s", N[op]);
	switch (op) {
	case 0: o.v(v.as_json(-2)); break;
	case 1: { Variant w = v; o.n(w.type()); w = Variant(4); w = v; v = w; break; }
	case 2: v = Variant("other"); break;
	case 3: if (v.type() == Variant::String) o.n(v.as_int()); break;
	case 4: switch (v.type()) {
		case Variant::String: { StrVal s = v.as_strval(); s += StrVal("k"); o.v(s); break; }
		case Variant::StrArray: { StringArray a = v.as_string_array(); a << StrVal("k"); a.set(0, StrVal("l")); arr_show(a, o); break; }
		case Variant::VarArray: { VariantArray a = v.as_variant_array(); a << Variant(9); a.set(0, Variant(8)); v = Variant(a); break; }
		case Variant::StrVarMap: { StrVariantMap m = v.as_variant_map(); m.put("k", Variant(1)); m.remove("7"); o.n(m.size()); v = Variant(m); break; }
		default: break;
		} break;
	case 5: v = v; break;
	case 6: { VariantArray a = v << Variant(1); a << v; Variant w(a); var_show(w, o); break; }
	}
}
static const int VAR_OPS = 7;

/*--- errors ---*/
static Error err_make(int which) { static int P; return which == 0 ? Error(ErrNum(3, 4), "text", &P) : Error(); }
static Error err_view(const Error& e, int) { return e; }
static void err_show(const Error& e, Out& o) { o.n((int32_t)e); o.s(e.default_text() ? e.default_text() : "none"); o.n(e.parameters() != 0); }
static void err_op(Error& e, int op, Out& o)
{
	static const char* const N[] = { "read", "copy, copy", "assign", "clear", "copy the copy back" };
	mc_note("%s", N[op]);
	switch (op) {
	case 0: err_show(e, o); break;
	case 1: { Error a(e), b; b = a; a = Error(); err_show(b, o); break; }
	case 2: e = Error(ErrNum(1, 1), "new"); break;
	case 3: e = Error(); break;
	case 4: { Error a = e; e = Error(); e = a; break; }
	}
}
static const int ERR_OPS = 5;

/*--- running them ---*/
template<class T> struct Job { T v; int nops, op[4]; Out out; void (*run_op)(T&, int, Out&); void (*show)(const T&, Out&);
	Job(const T& t, int slot) : v(t), nops(0), out(slot) {} };
template<class T> static void work(Job<T>& j) { for (int i = 0; i < j.nops; i++) j.run_op(j.v, j.op[i], j.out); j.show(j.v, j.out); }
template<class T> static void* thread_body(void* a)	// its variable is dropped by the thread itself
{
	Job<T>* j = (Job<T>*)a;
	work(*j); Out* o = new Out(j->out);
	delete j; return o;
}

template<class T> static void share(T (*make)(int), int bases, T (*view)(const T&, int), int views, void (*op)(T&, int, Out&), int nops, void (*show)(const T&, Out&))
{
	const int threads = mc_param("threads", 2), depth = mc_param("depth", 1), mainop = mc_param("main", 1);
	int base = mc_choose(bases), v[3], nop[3], o[3][4], rank[3];
	int mwhen = mainop ? 2 : mc_choose(2);		// main drops its own variable at the end, or before the others start, or goes on using it
	for (int t = 0; t < threads; t++) {
		v[t] = mc_choose(views); nop[t] = depth; rank[t] = v[t];
		for (int k = 0; k < depth; k++) { o[t][k] = mc_choose(nops); rank[t] = rank[t]*nops + o[t][k]; }
		if (t && rank[t] < rank[t-1]) mc_prune();	// the threads are alike
	}
	int mop = mwhen == 2 ? mc_choose(nops) : 0;
	mc_setkey("base %d view %d op %d and %s %d of view %d", base, v[0], o[0][0], mwhen == 2 ? "main" : "thread", mwhen == 2 ? mop : o[1][0], mwhen == 2 ? 0 : v[1]);
	Out* expect[3]; Out mexpect(0), got(1);
	for (int t = 0; t < threads; t++) {		// each alone
		T b = make(base);
		Job<T> j(view(b, v[t]), 2+t); j.nops = nop[t]; j.run_op = op; j.show = show; memcpy(j.op, o[t], sizeof j.op);
		b = T(); T alone = j.v; j.v = T(); { T fresh = view(make(base), v[t]); j.v = fresh; } alone = T();
		work(j); expect[t] = new Out(j.out);
	}
	if (mwhen == 2) { T x = make(base); op(x, mop, mexpect); show(x, mexpect); }
	mc_note("-- start");
	{
		T* b = new T(make(base));
		Job<T>* j[3]; pthread_t id[3];
		for (int t = 0; t < threads; t++) { j[t] = new Job<T>(view(*b, v[t]), 5+t); j[t]->nops = nop[t]; j[t]->run_op = op; j[t]->show = show; memcpy(j[t]->op, o[t], sizeof o[t]); }
		if (mwhen == 1) { delete b; b = 0; }
		for (int t = 0; t < threads; t++) pthread_create(&id[t], 0, thread_body<T>, j[t]);
		if (mwhen == 2) { op(*b, mop, got); show(*b, got); if (!got.is(mexpect)) mc_fail("main saw [%s], alone it sees [%s]", got.b, mexpect.b); }
		delete b;
		uint64_t h = 1;
		for (int t = 0; t < threads; t++) {
			void* r; pthread_join(id[t], &r); Out* g = (Out*)r;
			if (!g->is(*expect[t])) mc_fail("thread %d saw [%s], alone it sees [%s]", t+1, g->b, expect[t]->b);
			for (char* p = g->b; p < g->p; p++) h = h*1099511628211ull + (unsigned char)*p;
			delete g; delete expect[t];
		}
		mc_state(h); mc_outcome(h);
	}
}
static void strings() { share<StrVal>(str_make, STR_BASES, str_view, STR_VIEWS, str_op, STR_OPS, str_show); }
static void arrays() { share<IntArray>(int_make, 3, int_view, 3, int_op, ARR_OPS, int_show); }
static void string_arrays() { share<StringArray>(strs_make, 2, strs_view, 3, strs_op, ARR_OPS+2, strs_show); }
static void maps() { share<Map>(map_make, 2, map_view, 1, map_op, MAP_OPS, map_show); }
static void variants() { share<Variant>(var_make, 4, var_view, 1, var_op, VAR_OPS, var_show); }
static void errors() { share<Error>(err_make, 2, err_view, 1, err_op, ERR_OPS, err_show); }

/*--- C04: character queries from two threads ---*/
struct Q { int n; int f[4]; UCS4 ch[4]; int r[4]; };
static int query(int f, UCS4 ch)
{
	switch (f) {
	case 0: return UCS4Digit(ch);
	case 1: return UCS4ToUpper(ch);
	case 2: return UCS4ToLower(ch);
	case 3: return UCS4ToTitle(ch);
	default: return UCS4HexDigit(ch);
	}
}
static void* ask(void* a) { Q* q = (Q*)a; for (int i = 0; i < q->n; i++) q->r[i] = query(q->f[i], q->ch[i]); return 0; }
static void queries()
{
	static const UCS4 CH[] = { '5', 'a', 'Z', 0x969, 0xE9, 0x1C6, 0xFF19, 0x10428, 0x3007, 0x130, 0xD800, 0x7FFFFFFF };
	int depth = mc_param("depth", 2), chars = mc_param("chars", 8);
	static Q q[2]; int expect[2][4];
	UCS4 warm = CH[mc_choose(chars)]; int wf = mc_choose(4);
	for (int t = 0; t < 2; t++) { q[t].n = depth; for (int i = 0; i < depth; i++) { q[t].f[i] = i ? q[t].f[0] : wf; q[t].ch[i] = CH[mc_choose(chars)]; } }
	for (int t = 0; t < 2; t++) for (int i = 0; i < depth; i++) expect[t][i] = query(q[t].f[i], q[t].ch[i]);
	query(wf, warm);
	pthread_t a, b; pthread_create(&a, 0, ask, &q[0]); pthread_create(&b, 0, ask, &q[1]);
	pthread_join(a, 0); pthread_join(b, 0);
	for (int t = 0; t < 2; t++) for (int i = 0; i < depth; i++)
		if (q[t].r[i] != expect[t][i]) mc_fail("function %d of %X gave %X to thread %d, alone %X", q[t].f[i], q[t].ch[i], q[t].r[i], t+1, expect[t][i]);
}

/*--- C18: conversions of unrelated strings from two threads: nothing is shared but what the library keeps ---*/
struct Conv { StrVal* s; int op; };
static void convert(StrVal& s, int op, Out& o)
{
	ErrNum e;
	switch (op) {
	case 0: s.toUpper(); break;
	case 1: s.toLower(); break;
	case 2: o.n(s.asInt32(&e)); o.n((int32_t)e); break;
	}
	o.v(s);
}
static void* conv_body(void* a) { Conv* c = (Conv*)a; Out o(c->op/8); convert(*c->s, c->op%8, o); return 0; }
static void conversions()
{
	static const char* const S[] = { "a1", "\xC3\xA9\xC7\x86", "\xEF\xBC\x97\xE0\xA5\xA9", "Z\xC4\xB0", "3\xE3\x80\x87" };
	int strings = mc_param("strings", 5);
	int op = mc_choose(3), i = mc_choose(strings), j = mc_choose(strings), w = mc_choose(strings);
	Out e0(0), e1(1), ew(4);
	{ StrVal s(S[i]); convert(s, op, e0); } { StrVal s(S[j]); convert(s, op, e1); }
	{ StrVal s(S[w]); convert(s, op, ew); }
	StrVal a(S[i]), b(S[j]); Conv ca = { &a, 16+op }, cb = { &b, 24+op };
	pthread_t ta, tb; pthread_create(&ta, 0, conv_body, &ca); pthread_create(&tb, 0, conv_body, &cb);
	pthread_join(ta, 0); pthread_join(tb, 0);
	if (strcmp(sched_ghost(2), e0.b)) mc_fail("operation %d of string %d gave %s, alone %s", op, i, sched_ghost(2), e0.b);
	if (strcmp(sched_ghost(3), e1.b)) mc_fail("operation %d of string %d gave %s, alone %s", op, j, sched_ghost(3), e1.b);
}

extern "C" Scenario mc_scenarios[] = {
	{"shared_strings", strings, 8, 1}, {"shared_arrays", arrays, 8, 1}, {"shared_string_arrays", string_arrays, 8, 1},
	{"shared_maps", maps, 8, 1}, {"shared_variants", variants, 8, 1}, {"shared_errors", errors, 8, 1},
	{"concurrent_queries", queries, 6, 1}, {"conversions", conversions, 4, 1},
	{0} };
