/*
 * C20: latches exclude, conditions wake, and timed waits honour their timeout.
 */
#include "scenario.h"
#include <pthread.h>
#include <cstring>
#include <lockfree.h>
#if defined(WITH_CONDITION)
#include <thread.h>
#include <condition.h>
#endif

// What the scenario knows; no races are looked for in it, and touching it lets no other thread run
struct Ghost {
	int	owner;		// 1+the thread that is inside, or 0
	int	busy;		// threads between calling enter() (or a successful probe()) and leave() returning
	int	epochs;		// how often a thread started that
	int	woken, waiting, entered, items, done, stop;
	int	signals;	// sent so far
	long	signalled_at;
};
static Ghost& G() { return *(Ghost*)sched_ghost(0); }
static int shared;		// a data race here is a failure of exclusion
static int started, finished;

struct Inside {
	Latch& l;
	Inside(Latch& _l) : l(_l) {}
	void in(const char* how)
	{
		if (G().owner) mc_fail("%s let thread %d in while thread %d is inside", how, sched_id(), G().owner-1);
		G().owner = 1+sched_id();
	}
	void enter()
	{
		int quiet = !G().busy && !G().waiting, before = sched_mutex_waits()+sched_waits(), epoch;
		G().busy++; epoch = ++G().epochs;
		l.enter();
		if (quiet && G().epochs == epoch && sched_mutex_waits()+sched_waits() != before) mc_fail("enter() waited although the latch was free");
		in("enter()");
	}
	bool probe()
	{
		int quiet = !G().busy && !G().waiting, before = sched_mutex_waits()+sched_waits(), epoch = G().epochs, own = G().owner == 1+sched_id();
		G().busy++; ++G().epochs; epoch++;
		bool got = l.probe();
		if (sched_mutex_waits()+sched_waits() != before) mc_fail("probe() waited");
		if (got) in("probe()");
		else if (quiet && G().epochs == epoch) mc_fail("probe() failed although the latch was free");
		if (!got) G().busy--;
		if (own && got) mc_fail("probe() let a thread in twice");
		return got;
	}
	void leave()
	{
		int before = sched_mutex_waits()+sched_waits();
		G().owner = 0;
		l.leave();
		G().busy--;
		if (sched_mutex_waits()+sched_waits() != before) mc_fail("leave() waited");
	}
	void holding()
	{
		int before = sched_mutex_waits()+sched_waits();
		bool h = l.holding(), own = G().owner == 1+sched_id();
		if (h != own) mc_fail("thread %d is told that it %s the latch", sched_id(), h ? "holds" : "does not hold");
		if (sched_mutex_waits()+sched_waits() != before) mc_fail("holding() waited");
	}
	void out() { G().owner = 0; G().busy--; G().waiting++; }	// into wait()
	void back() { G().waiting--; G().busy++; ++G().epochs; in("wait()"); }
	void touch() { int v = shared; sched_free_point(); shared = v+1; }
};

/*--- a latch used by several threads ---*/
enum Op { NONE, ENTER, PROBE, HOLDING, HOLDING_INSIDE, PROBE_INSIDE, OPS };
struct Job { Latch* l; int op[4], n, in; };
static void* user(void* a)
{
	Job& j = *(Job*)a; Inside u(*j.l);
	for (int i = 0; i < j.n; i++) switch (j.op[i]) {
	case NONE: break;
	case ENTER: u.enter(); u.touch(); j.in++; u.leave(); break;
	case PROBE: if (u.probe()) { u.touch(); j.in++; u.leave(); } break;
	case HOLDING: u.holding(); break;
	case HOLDING_INSIDE: u.enter(); u.holding(); u.touch(); u.holding(); j.in++; u.leave(); u.holding(); break;
	case PROBE_INSIDE: u.enter(); if (u.probe()) mc_fail("probe() let a thread in twice"); u.touch(); j.in++; u.holding(); u.leave(); break;
	}
	return 0;
}
static void latch_ops()
{
	int threads = mc_param("threads", 2), depth = mc_param("depth", 2);
	Latch l; Job job[4]; pthread_t t[4];
	for (int i = 0; i < threads; i++) {
		job[i].l = &l; job[i].n = depth; job[i].in = 0;
		for (int k = 0; k < depth; k++) {
			job[i].op[k] = mc_choose(OPS);
			if (k && !job[i].op[k-1] && job[i].op[k]) mc_prune();	// nothing only at the end
		}
		if (i && memcmp(job[i-1].op, job[i].op, depth*sizeof(int)) > 0) mc_prune();	// threads are alike
	}
	for (int i = 0; i < threads; i++) pthread_create(&t[i], 0, user, &job[i]);
	int in = 0;
	if (mc_param("main", 0)) { Inside m(l); m.holding(); if (m.probe()) { m.holding(); m.touch(); m.leave(); in++; } }

	for (int i = 0; i < threads; i++) { pthread_join(t[i], 0); in += job[i].in; }
	if (shared != in) mc_fail("%d threads were inside, the count is %d", in, shared);
	Inside u(l); u.holding();
	if (!u.probe()) mc_fail("the latch is held at the end");
	u.holding(); u.leave();
}

/*--- threads that make the first latches ---*/
static void* maker(void*) { Latch l; Inside u(l); l.enter(); if (!l.holding()) mc_fail("the holder is told it does not hold the latch"); if (l.probe()) mc_fail("probe() let a thread in twice"); l.leave(); if (!l.probe()) mc_fail("probe() failed although the latch was free"); l.leave(); return 0; }
static void first_latch()
{
	int n = mc_param("threads", 2); pthread_t t[4];
	for (int i = 0; i < n; i++) pthread_create(&t[i], 0, maker, 0);
	if (mc_choose(2)) maker(0);
	for (int i = 0; i < n; i++) pthread_join(t[i], 0);
}

/*--- two latches are independent ---*/
static Latch* two[2];
static void* second(void*) { int before = sched_mutex_waits(); if (two[0]->holding()) mc_fail("holding() of another's latch"); two[1]->enter(); if (sched_mutex_waits() != before) mc_fail("another latch had to be waited for"); if (!two[1]->holding() || two[0]->holding()) mc_fail("holding() mixes up latches"); two[1]->leave(); return 0; }
static void two_latches()
{
	Latch a, b; two[0] = &a; two[1] = &b;
	a.enter(); pthread_t t; pthread_create(&t, 0, second, 0);
	if (!a.holding() || b.holding()) mc_fail("holding() mixes up latches");
	sched_free_point(); pthread_join(t, 0); if (!a.holding() || b.holding()) mc_fail("holding() mixes up latches"); a.leave();
}

#if defined(WITH_CONDITION)
struct Room { Latch l; Condition c, c2; };
static Room* room;

static void* quick_probe(void*) { Inside u(room->l); if (u.probe()) { u.touch(); u.leave(); } return 0; }

/*--- waiting for something to become true ---*/
static void* consumer(void*)
{
	Inside u(room->l);
	u.enter(); u.touch();
	while (!started) {		// a plain variable, protected by the latch
		u.out();
		room->c.wait(&room->l);
		u.back();
		u.holding(); u.touch();
	}
	started--; finished++;
	u.leave();
	return 0;
}
static void produce(int how, int i, int n)
{
	Inside u(room->l);
	if (how < 2) {			// signal each
		u.enter(); u.touch(); started++;
		if (how == 0) room->c.signal();
		u.leave();
		if (how == 1) room->c.signal();
	} else {			// or all at once
		if (i) return;
		u.enter(); u.touch(); started += n;
		if (how == 2) room->c.broadcast();
		u.leave();
		if (how == 3) room->c.broadcast();
	}
}
static void condition_loop()
{
	int n = 1+mc_choose(mc_param("threads", 2)), how = mc_choose(4);
	Room r; room = &r; pthread_t t[4];
	for (int i = 0; i < n; i++) pthread_create(&t[i], 0, consumer, 0);
	for (int i = 0; i < n; i++) produce(how, i, n);
	for (int i = 0; i < n; i++) pthread_join(t[i], 0);
	if (finished != n) mc_fail("%d of %d were woken", finished, n);
	if (r.l.holding() || !r.l.probe()) mc_fail("the latch is held at the end");
	r.l.leave();
}

/*--- waiting just once ---*/
static pthread_mutex_t count_mutex = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t counted = PTHREAD_COND_INITIALIZER;
static int null_latch, timed_too;
static void* waiter(void* a)
{
	Inside u(room->l);
	long delay = 100000;
	bool timed = timed_too & (1 << (long)a);
	if (!null_latch) { u.enter(); u.touch(); u.out(); }
	Latch* l = null_latch ? 0 : &room->l;
	long start = sched_time();
	if (timed) room->c.wait(delay, l); else room->c.wait(l);
	if (!null_latch) { u.back(); u.holding(); u.touch(); }
	if (timed && sched_time()-start >= 100000) mc_prune();		// see timed_wait
	if (!G().signals) mc_fail("wait() returned though nobody was woken");
	if (timed && delay <= 0) mc_fail("a wait that was woken returned with no time left");
	pthread_mutex_lock(&count_mutex); G().woken++; pthread_cond_signal(&counted); pthread_mutex_unlock(&count_mutex);
	if (!null_latch) u.leave();
	return 0;
}
static void wake_waiters()
{
	int n = 1+mc_choose(mc_param("threads", 2)), how = mc_choose(3), inside; timed_too = mc_choose(1<<n);
	long start = sched_time();
	Room r; room = &r; pthread_t t[4]; null_latch = mc_choose(2); inside = null_latch ? 0 : mc_choose(2);
	for (int i = 0; i < n; i++) pthread_create(&t[i], 0, waiter, (void*)(long)i);
	for (int i = 0; i < n; i++) sched_until_waiting(1+i);
	if (sched_time() != start) mc_prune();
	Inside u(r.l);
	if (!null_latch) { if (!u.probe()) { if (sched_time() != start) mc_prune(); mc_fail("the latch is held while its holders wait"); } u.touch(); if (!inside) u.leave(); }
	if (G().woken) mc_fail("wait() returned though nobody was woken");
	if (how == 0) { G().signals++; r.c.broadcast(); }
	else for (int i = 0; i < n; i++) { G().signals++; r.c.signal(); if (how == 2 && i < n-1) sched_free_point(); }
	if (inside) { if (G().woken) mc_fail("a waiter holds the latch of another"); u.holding(); u.touch(); u.leave(); }
	for (int i = 0; i < n; i++) pthread_join(t[i], 0);
	if (G().woken != n) mc_fail("%d of %d were woken", G().woken, n);
	r.c.signal(); r.c.broadcast();		// nobody waits: no effect
}

// One signal; the others are woken afterwards by a broadcast
static void wake_one()
{
	Room r; room = &r; pthread_t t[3]; int n = 2; null_latch = mc_choose(2); timed_too = 0;
	for (int i = 0; i < n; i++) pthread_create(&t[i], 0, waiter, (void*)(long)i);
	for (int i = 0; i < n; i++) sched_until_waiting(1+i);
	G().signals++; r.c.signal();
	pthread_mutex_lock(&count_mutex); while (!G().woken) pthread_cond_wait(&counted, &count_mutex); pthread_mutex_unlock(&count_mutex);
	mc_outcome(G().woken);
	r.c.broadcast();
	for (int i = 0; i < n; i++) pthread_join(t[i], 0);
}

// Waiters for different conditions under one latch
static void* other_waiter(void*) { Inside u(room->l); u.enter(); u.touch(); u.out(); room->c2.wait(&room->l); u.back(); if (G().signals < 2) mc_fail("woken by another condition"); u.touch(); u.leave(); return 0; }
static void two_conditions()
{
	Room r; room = &r; pthread_t a, b; null_latch = 0; timed_too = mc_choose(2); bool all = mc_choose(2);
	pthread_create(&a, 0, waiter, 0); pthread_create(&b, 0, other_waiter, 0);
	sched_until_waiting(1); sched_until_waiting(2);
	G().signals = 1; if (all) r.c.broadcast(); else r.c.signal();
	pthread_join(a, 0);
	if (!sched_waiting(2)) mc_fail("woken by another condition");
	G().signals = 2; if (all) r.c2.broadcast(); else r.c2.signal();
	pthread_join(b, 0);
}

/*--- timed waits ---*/
static const long DELAY[] = { 0, 1, 999, 1000, 1500, 60000, 3, 500, 2001, -1, -1000, 3600000 };
struct Wake { long after; int how; };	// ms; 0 nothing, 1 signal, 2 broadcast
static Wake wake;
static void* waker(void*)
{
	if (wake.after >= 0) sched_until_waiting(0);
	if (wake.after > 0) sched_advance(wake.after*1000000ll);
	if (wake.how) { G().signals++; G().signalled_at = sched_time(); if (wake.how == 1) room->c.signal(); else room->c.broadcast(); }
	return 0;
}
static void timed_wait()
{
	static const int PHASE[] = { 0, 1, 999, 500, 250, 750 };		// ms after the second
	Room r; room = &r;
	long delay = DELAY[mc_choose(mc_param("delays", 12))], remains = delay;
	int phase = mc_choose(mc_param("phases", 4)); if (PHASE[phase]) sched_advance(PHASE[phase]*1000000ll);
	if (mc_choose(2)) sched_advance(999999);		// not at a full ms
	Inside u(r.l); bool with = mc_choose(2), plain = mc_choose(2), spurious = mc_param("spurious", 0);
	wake.how = mc_choose(3); wake.after = -1;
	if (wake.how) {
		static const int when[] = { 0, 1, 50, 99, 100, 101, 150 };	// percent of the delay
		wake.after = delay*when[mc_choose(plain ? 7 : 1)]/100;
		if (wake.after < 0) wake.after = 0;
	}
	pthread_t t; if (wake.how || plain) pthread_create(&t, 0, waker, 0);	// another thread is there, or not
	long start = sched_time();
	if (with) { u.enter(); u.touch(); u.out(); }
	r.c.wait(remains, with ? &r.l : 0);
	long elapsed = sched_time()-start;
	if (with) { u.back(); u.holding(); u.touch(); u.leave(); u.holding(); }
	long left = delay-elapsed; if (left < 0) left = 0;
	mc_note("delay %ld, returned after %ld with %ld left; %d signals", delay, elapsed, remains, G().signals);
	if (!G().signals && !spurious && elapsed < delay) mc_fail("a wait of %ld ms returned after %ld ms though nobody was woken", delay, elapsed);
	if (!G().signals && delay >= 0 && elapsed > delay+20) mc_fail("a wait of %ld ms took %ld ms", delay, elapsed);
	if (remains < left-1 || remains > left+1 || remains < 0) mc_fail("a wait of %ld ms that took %ld ms returned with %ld left", delay, elapsed, remains);
	if (elapsed > delay && remains) mc_fail("a wait of %ld ms returned after %ld ms with %ld left", delay, elapsed, remains);
	if (G().signals && G().signalled_at >= start && elapsed > (G().signalled_at-start > delay ? G().signalled_at-start : delay)+20) mc_fail("a wait of %ld ms took %ld ms", delay, elapsed);
	if (wake.how || plain) pthread_join(t, 0);
	if (!r.l.probe()) mc_fail("the latch is held at the end");
	r.l.leave();
}

// A loop of timed waits, as one would write it with what time is left
static void timed_loop()
{
	Room r; room = &r; Inside u(r.l);
	long delay = DELAY[mc_choose(6)]+1, remains = delay; int n = mc_choose(3);
	pthread_t t[3]; wake.how = 1+mc_choose(2); wake.after = delay/(n+2);
	for (int i = 0; i < n; i++) pthread_create(&t[i], 0, waker, 0);
	long start = sched_time(); int rounds = 0;
	u.enter(); u.touch();
	while (remains > 0) {
		if (++rounds > n+2) mc_fail("a wait returned %d times for %d signals", rounds, n);
		u.out();
		r.c.wait(remains, &r.l);
		u.back(); u.holding();
	}
	long elapsed = sched_time()-start;
	u.leave();
	if (elapsed < delay-rounds || elapsed > delay+20) mc_fail("waits for %ld ms took %ld ms in all", delay, elapsed);
	for (int i = 0; i < n; i++) pthread_join(t[i], 0);
}
#endif

extern "C" Scenario mc_scenarios[] = {
	{"latch_ops", latch_ops, 4, 1}, {"first_latch", first_latch, 4, 1}, {"two_latches", two_latches, 3, 1},
#if defined(WITH_CONDITION)
	{"condition_loop", condition_loop, 5, 1}, {"wake_waiters", wake_waiters, 6, 1}, {"wake_one", wake_one, 5, 1}, {"two_conditions", two_conditions, 5, 1},
	{"timed_wait", timed_wait, 7, 1}, {"timed_loop", timed_loop, 5, 1},
#endif
	{0} };
