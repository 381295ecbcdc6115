/*
 * C19: every started thread runs once and is joined exactly once, and nobody waits forever.
 * Whether a thread has ended is told by plain variables that it sets last: reading them after a join is a
 * data race (which the scheduler reports) unless the join waited for the thread.
 */
#include "scenario.h"
#include <pthread.h>
#include <new>
#include <thread.h>
#include <condition.h>

enum Body { NOP, YIELD, EXIT, START, START_JOIN, START_EXIT, JOIN_ANY, BODIES };
static const char* const NAME[] = { "does nothing", "yields", "exits", "starts another", "starts another and joins it", "starts another and exits", "joins any" };
struct W;
static W* workers[8]; static int nworkers;
struct W : public Thread {
	int n, body, runs, ended, joined; W* child; Thread* got; int any;
	W(int b) : body(b), runs(0), ended(0), joined(0), child(0), got(0), any(0) { n = 0; }
	~W() {}
	int run();
};
static W* make(int body) { return new W(body); }
static void returned(W* w, const char* how, bool check = true)
{
	mc_note("%s returns worker %d", how, w->n);
	if (w->joined) mc_fail("%s returned worker %d, which was returned before", how, w->n);
	w->joined = 1; sched_ghost(1)[w->n] = 1;
	if (check && (!w->ended || w->runs != 1)) mc_fail("%s returned worker %d, which ran %d times and has %sended", how, w->n, w->runs, w->ended ? "" : "not ");
}
int W::run()
{
	runs++;
	Thread* me = Thread::current();
	if (me != this) mc_fail("current() is %s in a thread that was started", me ? "another thread" : "null");
	if (id() != Thread::currentId() || !id()) mc_fail("id() is not the id of the thread");
	if (Thread::main() == this) mc_fail("main() is not the main thread");
	switch (body) {
	case YIELD: Thread::yield(); break;
	case START: case START_EXIT: child = make(NOP); child->n = n+10; child->resume(); break;
	case START_JOIN: { W c(NOP); c.n = n+10; c.resume(); c.join(); returned(&c, "join"); break; }
	case JOIN_ANY: got = Thread::joinAny(); any = 1; break;
	}
	ended = 1;
	if (body == EXIT || body == START_EXIT) { Thread::exit(3); mc_fail("exit() returned"); }
	return 7;
}
static Thread* join_any(bool may_wait)
{
	int before = sched_waits();
	Thread* t = Thread::joinAny();
	if (!may_wait && sched_waits() != before) mc_fail("joinAny waited although there is nothing to wait for");
	return t;
}
static void at_end()
{
	int before = sched_waits();
	for (int i = 0; i < 2; i++) if (Thread* t = join_any(false)) mc_fail("joinAny returned %s when every thread was joined", t == Thread::main() ? "the main thread" : "a thread");
	if (int n = sched_unjoined()) mc_fail("%d ended threads were never joined", n);
	if (Thread::current() != Thread::main() || !Thread::main()) mc_fail("current() is not main() in the main thread");
}

// Main starts up to 3 threads, in any order with joining them singly or any
static void mixed()
{
	const int max = mc_param("threads", 2), bodies = mc_param("bodies", BODIES);
	if (Thread::current() != Thread::main() || !Thread::main()) mc_fail("current() is not main() in the main thread");
	int n = 1 + mc_choose(max); bool may_any = true;
	W* w[4]; int left = 0, started = 0, expect = 0;
	bool any_ender = false;
	for (int i = 0; i < n; i++) {
		int b = mc_choose(bodies); if (b == JOIN_ANY) mc_prune();
		if (i && b < w[i-1]->body) { mc_prune(); }
		if (b == START_JOIN) may_any = false;	// it alone joins its child
		w[i] = make(b); w[i]->n = i;
	}
	const bool destroy = mc_choose(2);		// threads are deleted when joined, or kept to the end
	Thread* all[16]; int nall = 0;
	W* kid[4]; int kids = 0;	// started by threads that ended
	auto any = [&](bool expect_one) {
		Thread* t = join_any(expect_one);
		if (!t) { if (expect_one) mc_fail("joinAny returned null although a thread was not joined"); return (W*)0; }
		if (t == Thread::main()) mc_fail("joinAny returned the main thread");
		W* x = (W*)t; returned(x, "joinAny");	// a child that was returned before may be deleted
		if (x->child && !sched_ghost(1)[x->n+10]) kid[kids++] = x->child;
		for (int i = 0; i < kids; i++) if (kid[i] == x) kid[i--] = kid[--kids];
		expect--;
		for (int i = 0; i < n; i++) if (w[i] == x) { left--; }
		if (destroy) { for (int i = 0; i < n; i++) if (w[i] == x) w[i] = 0; delete x; } else all[nall++] = x;
		return x;
	};
	while (started < n || expect > 0) {
		int c = 0, opt[20]; 
		if (started < n) opt[c++] = 0;
		if (expect > 0 && may_any) opt[c++] = 1;
		for (int i = 0; i < started; i++) if (w[i] && !w[i]->joined) opt[c++] = 2+i;
		for (int i = 0; i < kids; i++) opt[c++] = 20+i;
		int k = opt[mc_choose(c)];
		if (k == 0) { mc_note("worker %d %s", started, NAME[w[started]->body]); int b = w[started]->body; w[started]->resume(); started++; expect += 1 + (b == START || b == START_EXIT); left++; }
		else if (k == 1) any(true);
		else if (k >= 20) {
			W* x = kid[k-20]; kid[k-20] = kid[--kids];
			x->join(); returned(x, "join"); expect--;
			if (destroy) delete x; else all[nall++] = x;
		} else {
			W* x = w[k-2]; x->join();
			if (x->child && !sched_ghost(1)[x->n+10]) kid[kids++] = x->child;
			 returned(x, "join"); expect--; left--;
			if (destroy) { delete x; w[k-2] = 0; } else all[nall++] = x;
		}
	}
	at_end();
	while (nall) delete all[--nall];
	at_end();
}

// Another thread joins any, too
static void two_joiners()
{
	int n = 1 + mc_choose(mc_param("threads", 2));
	W* w[4]; W j(JOIN_ANY); j.n = 9;
	bool first = mc_choose(2);
	if (first) j.resume();
	for (int i = 0; i < n; i++) { w[i] = make(mc_choose(2) ? EXIT : NOP); w[i]->n = i; w[i]->resume(); }
	if (!first) j.resume();
	bool seen = false; int count = 0;
	while (Thread* t = Thread::joinAny()) {
		if (t == &j) { if (seen) mc_fail("a thread was returned twice"); seen = true; if (!j.ended) mc_fail("joinAny returned a thread that runs"); }
		else { returned((W*)t, "joinAny"); count++; }
	}
	if (!seen) mc_fail("joinAny never returned the thread that joined another");
	if (!j.any) mc_fail("the other joiner never returned");
	if (j.got == &j) mc_fail("joinAny returned the thread that called it");
	if (j.got == Thread::main()) mc_fail("joinAny returned the main thread");
	if (j.got) { returned((W*)j.got, "the other joiner's joinAny"); count++; }
	if (count != n) mc_fail("%d of %d threads were joined", count, n);
	at_end();
	for (int i = 0; i < n; i++) delete w[i];
}

// A thread outside the Thread class joins one thread while main joins any or another
static W* target; static int target_done;
static void* outside(void*) { target->join(); if (!target->ended) mc_fail("join returned before the thread ended"); target_done = 1; return 0; }
static void join_and_any()
{
	int n = 1 + mc_choose(2), mode = mc_choose(3);
	W* w[3];
	for (int i = 0; i < n; i++) { w[i] = make(i ? YIELD : mc_choose(2) ? EXIT : NOP); w[i]->n = i; w[i]->resume(); }
	target = w[0];
	pthread_t p; pthread_create(&p, 0, outside, 0);
	int got = 0;
	if (mode == 0) { while (Thread* t = Thread::joinAny()) { W* x = (W*)t; if (x == target) got++; returned(x, "joinAny"); if (x != target && x != w[n-1]) mc_fail("an unknown thread"); } pthread_join(p, 0); }
	else if (mode == 1) { pthread_join(p, 0); if (!target_done) mc_fail("?"); for (int i = 1; i < n; i++) { w[i]->join(); returned(w[i], "join"); } }
	else { for (int i = 1; i < n; i++) { w[i]->join(); returned(w[i], "join"); } pthread_join(p, 0); }
	for (int i = 1; i < n; i++) if (!w[i]->joined) mc_fail("worker %d was not joined", i);
	at_end();
	for (int i = 0; i < n; i++) delete w[i];
}

// Some threads can't be started
static void no_room()
{
	int n = 1 + mc_choose(2), bad = mc_choose(n);
	bool destroy_first = mc_choose(2), any = mc_choose(2);
	W* w[3]; W* never = make(NOP);
	sched_fail_create(bad+1);
	for (int i = 0; i < n; i++) { w[i] = make(NOP); w[i]->n = i; w[i]->resume(); }
	if (destroy_first) { delete w[bad]; w[bad] = 0; delete never; never = 0; }
	for (int i = 0; i < n; i++) if (i != bad) {
		if (any) { Thread* t = join_any(true); if (t != w[i]) mc_fail("joinAny returned %s", t ? "a thread that was not started" : "null"); }
		else w[i]->join();
		returned(w[i], any ? "joinAny" : "join");
	}
	at_end();
	if (w[bad] && w[bad]->runs) mc_fail("ran");
	delete never;
	for (int i = 0; i < n; i++) delete w[i];
	at_end();
}

// A thread object is destroyed after a newer thread got the same id
static void same_id()
{
	int how = mc_choose(2), how2 = mc_choose(2), when = mc_choose(3);
	W* a = make(NOP); a->n = 0; a->resume();
	if (how) { if (Thread::joinAny() != a) mc_fail("joinAny"); } else a->join();
	returned(a, "join");
	W* b = make(mc_choose(2) ? YIELD : NOP); b->n = 1;
	if (when == 0) delete a;
	b->resume();
	if (when == 1) delete a;
	if (how2) { if (Thread::joinAny() != b) mc_fail("joinAny did not return the second thread"); } else b->join();
	returned(b, "join");
	if (when == 2) delete a;
	at_end();
	delete b;
	at_end();
}

// Threads that are started from the constructor of a subclass, as thread_test does
struct Auto : public Thread { int* runs; int sub; Auto(int* r, int s) : runs(r), sub(s) { resume(); }
	int run() { yield(); __sync_fetch_and_add(runs, 1); for (int i = 0; i < sub; i++) (void)new Auto(runs, 0); return 0; } };
static void self_starting()
{
	int runs = 0, n = 1 + mc_choose(mc_param("threads", 2)), sub = n == 1 || mc_param("sub", 0) ? mc_choose(2) : 0, count = 0;
	for (int i = 0; i < n; i++) (void)new Auto(&runs, sub);
	while (Thread* t = Thread::joinAny()) { delete t; count++; }
	if (count != n*(1+sub) || runs != count) mc_fail("%d threads joined, %d ran, %d started", count, runs, n*(1+sub));
	if (int k = sched_unjoined()) mc_fail("%d ended threads were never joined", k);
}

extern "C" Scenario mc_scenarios[] = {
	{"threads_mixed", mixed, 12, 1}, {"two_joiners", two_joiners, 5, 1}, {"join_and_any", join_and_any, 5, 1},
	{"start_fails", no_room, 5, 1}, {"same_id", same_id, 6, 1}, {"self_starting", self_starting, 4, 1},
	{0} };
