/*
 * C29: threads that use one compiled program, one compiled expression's text and one result at the same
 * time. Each must see what it sees when it runs alone; the scheduler reports data races, use of released
 * storage, double release and leaks.
 */
#include "scenario.h"
#include <pthread.h>
#include <cstdio>
#include <cstring>
#include <climits>
#include <cassert>
#include <strval.h>
#include <strregex.h>

static void add(char*& p, char* e, const char* s, size_t n) { while (n-- && p < e-1) *p++ = *s++; *p = 0; }
struct Out {
	char *b, *p;
	Out(int slot) : b(sched_ghost(slot)), p(b) { *b = 0; }
	void s(const char* t) { add(p, b+2048, t, strlen(t)); }
	void n(long v) { char t[24]; snprintf(t, sizeof t, "%ld ", v); s(t); }
	bool is(const Out& o) const { return p-b == o.p-o.b && memcmp(b, o.b, p-b) == 0; }
};
static const char* const EXPR[] = { "a(?<x>b*)", "(a|b|ab){2}", "(?<x>a|(?<y>b)){1,2}b", "\\da", "(?!ab)[a-c]+", "(?<x>(?<y>a?)b)+$", "^\\s*a" };
static const int EXPRS = 7;
static const char* const TEXT[] = { "abb", "bab", "1ab", "aab", "", " a\xC3\xA9" };
static const int TEXTS = 6;
static void show(const RxProgram& p, const RxResult& r, Out& o)
{
	o.n(r.succeeded());
	if (!r.succeeded()) return;
	o.n(r.offset()); o.n(r.length());
	for (int g = 1; g < p.maxCapture(); g++) { o.n(r.capture(2*g)); o.n(r.capture(2*g+1)); }
}
static char* compiled(const char* re)
{
	RxCompiler c(re); char* nfa = 0;
	if (!c.compile(nfa)) mc_fail("%s doesn't compile: %s", re, c.errorMessage());
	return nfa;
}

/*--- one program ---*/
struct Match { const RxProgram* p; StrVal text; int op; Out out; RxResult kept; Match(const RxProgram* p, const StrVal& t, int op, int slot) : p(p), text(t), op(op), out(slot) {} };
static void match(Match& m)
{
	switch (m.op) {
	case 0: { const RxResult r = m.p->matchAfter(m.text); show(*m.p, r, m.out); m.kept = r; break; }
	case 1: { const RxResult r = m.p->matchAt(m.text); show(*m.p, r, m.out); m.kept = r; break; }
	case 2: { const RxResult r = m.p->matchAfter(m.text, 1); show(*m.p, r, m.out); const RxResult t = m.p->matchAt(m.text, 1); show(*m.p, t, m.out); break; }
	case 3: for (int g = 0; g < m.p->maxCapture(); g++) { StrVal n = m.p->group_name(g); m.out.s(n.asUTF8()); m.out.s(","); } m.out.n(m.p->maxStation()); m.out.n(m.p->maxCounter()); break;
	}
}
static void* match_body(void* a) { Match* m = (Match*)a; match(*m); m->text = StrVal(); return m; }
static void programs()
{
	const int threads = mc_param("threads", 2);
	int e = mc_choose(mc_param("expressions", EXPRS)), t[3], op[3], rank[3];
	bool same = mc_choose(2);	// the threads' texts share their body, if they are the same
	for (int k = 0; k < threads; k++) {
		t[k] = mc_choose(mc_param("texts", TEXTS)); op[k] = mc_choose(4); rank[k] = t[k]*4 + op[k];
		if (same && k && t[k] != t[0]) mc_prune();
		if (k && rank[k] < rank[k-1]) mc_prune();
	}
	mc_setkey("/%s/ on '%s' (%d) and '%s' (%d)", EXPR[e], TEXT[t[0]], op[0], TEXT[t[1]], op[1]);
	mc_note("/%s/ on '%s' (%d) and '%s' (%d)%s", EXPR[e], TEXT[t[0]], op[0], TEXT[t[1]], op[1], same ? ", sharing" : "");
	for (int k = 0; k < threads; k++) {
		RxProgram alone(compiled(EXPR[e]), true); Match m(&alone, TEXT[t[k]], op[k], 4+k); match(m);
	}
	{
		RxProgram p(compiled(EXPR[e]), true);
		StrVal text(TEXT[t[0]]);
		Match* m[3]; pthread_t id[3];
		for (int k = 0; k < threads; k++) m[k] = new Match(&p, same ? text : StrVal(TEXT[t[k]]), op[k], k);
		for (int k = 0; k < threads; k++) pthread_create(&id[k], 0, match_body, m[k]);
		uint64_t h = 1;
		for (int k = 0; k < threads; k++) {
			void* r; pthread_join(id[k], &r);
			if (strcmp(sched_ghost(k), sched_ghost(4+k))) mc_fail("thread %d saw [%s], alone it sees [%s]", k+1, sched_ghost(k), sched_ghost(4+k));
			for (char* c = sched_ghost(k); *c; c++) h = h*1099511628211ull + (unsigned char)*c;
		}
		for (int k = 0; k < threads; k++) {	// a result outlives the thread that found it
			if (op[k] < 2) { Out o(8+k); show(p, m[k]->kept, o); if (strcmp(sched_ghost(8+k), sched_ghost(4+k))) mc_fail("the result kept by thread %d is [%s], it was [%s]", k+1, sched_ghost(8+k), sched_ghost(4+k)); }
			delete m[k];
		}
		mc_state(h); mc_outcome(h);
	}
}

/*--- compiling the same text ---*/
struct Comp { StrVal re; bool ok; char* nfa; int slot; Comp(const StrVal& r, int s) : re(r), ok(false), nfa(0), slot(s) {} };
static void comp(Comp& c)
{
	Out o(c.slot); RxCompiler k(c.re);
	c.ok = k.compile(c.nfa);
	if (c.ok) { for (char* p = c.nfa; *p; p++) o.n((unsigned char)*p); delete [] c.nfa; }
	else { o.s(k.errorMessage()); o.n(k.errorOffset()); }
	c.re = StrVal();
}
static void* comp_body(void* a) { comp(*(Comp*)a); return 0; }
static void compilers()
{
	static const char* const RE[] = { "a(?<x>b)", "(a|b){2,3}", "[a-c]\\d", "(a", "x{2,1}", "\xC3\xA9*|" };
	int i = mc_choose(6), j = mc_choose(6); if (j < i) mc_prune();
	mc_setkey("/%s/ and /%s/", RE[i], RE[j]);
	{ Comp a(RE[i], 4); comp(a); } { Comp b(RE[j], 5); comp(b); }
	StrVal re(RE[i]);
	Comp* a = new Comp(re, 0); Comp* b = new Comp(i == j ? re : StrVal(RE[j]), 1);
	pthread_t ta, tb; pthread_create(&ta, 0, comp_body, a); pthread_create(&tb, 0, comp_body, b);
	pthread_join(ta, 0); pthread_join(tb, 0);
	if (strcmp(sched_ghost(0), sched_ghost(4))) mc_fail("/%s/ compiles to [%s], alone to [%s]", RE[i], sched_ghost(0), sched_ghost(4));
	if (strcmp(sched_ghost(1), sched_ghost(5))) mc_fail("/%s/ compiles to [%s], alone to [%s]", RE[j], sched_ghost(1), sched_ghost(5));
	mc_state(i*8+j); mc_outcome(i*8+j);
	delete a; delete b;
}

/*--- copies of one result ---*/
struct Res { RxResult r; int op; Out out; const RxProgram* p; Res(const RxResult& r, int op, int slot, const RxProgram* p) : r(r), op(op), out(slot), p(p) {} };
static void use(Res& x)
{
	switch (x.op) {
	case 0: show(*x.p, x.r, x.out); break;
	case 1: { RxResult c = x.r; c.captureSet(2, 7); show(*x.p, c, x.out); show(*x.p, x.r, x.out); break; }
	case 2: x.r.captureSet(3, 9); show(*x.p, x.r, x.out); break;
	case 3: x.r.clear(); show(*x.p, x.r, x.out); break;
	case 4: { RxResult c; c = x.r; x.r = RxResult(); show(*x.p, c, x.out); break; }
	}
}
static void* use_body(void* a) { Res* x = (Res*)a; use(*x); x->r.clear(); return 0; }
static void results()
{
	const int threads = mc_param("threads", 2), OPS = 5;
	int op[3], mop = mc_choose(OPS+1);	// main goes on using its own, or drops it at once
	for (int k = 0; k < threads; k++) { op[k] = mc_choose(OPS); if (k && op[k] < op[k-1]) mc_prune(); }
	mc_setkey("%d, %d, main %d", op[0], op[1], mop);
	RxProgram p(compiled("(?<x>a)(?<y>b)"), true);
	StrVal text("xab");
	for (int k = 0; k < threads; k++) { Res x(p.matchAfter(text), op[k], 4+k, &p); use(x); }
	if (mop < OPS) { Res x(p.matchAfter(text), mop, 7, &p); use(x); }
	RxResult mine = p.matchAfter(text);
	Res* x[3]; pthread_t id[3];
	for (int k = 0; k < threads; k++) x[k] = new Res(mine, op[k], k, &p);
	for (int k = 0; k < threads; k++) pthread_create(&id[k], 0, use_body, x[k]);
	if (mop < OPS) {
		Res y(mine, mop, 3, &p); mine.clear(); use(y);
		if (strcmp(sched_ghost(3), sched_ghost(7))) mc_fail("main saw [%s], alone it sees [%s]", sched_ghost(3), sched_ghost(7));
	} else mine.clear();
	mc_state((op[0]*8+op[1])*8+mop);
	for (int k = 0; k < threads; k++) {
		pthread_join(id[k], 0);
		if (strcmp(sched_ghost(k), sched_ghost(4+k))) mc_fail("thread %d saw [%s], alone it sees [%s]", k+1, sched_ghost(k), sched_ghost(4+k));
		delete x[k];
	}
}
extern "C" Scenario mc_scenarios[] = { {"shared_program", programs, 8, 1}, {"shared_expression", compilers, 4, 1}, {"shared_result", results, 6, 1}, {0} };
