/*
 * A scheduler that owns every thread of the code under test, so that the explorer decides each
 * context switch. The code under test (repository sources and scenario) is a shared library built with
 * -fsanitize=thread whose calls to the sanitizer's and to the pthread functions arrive here. Threads are
 * fibers. Before every operation on an atomic, mutex, condition or thread the explorer may switch, at
 * most P times away from a thread that could go on (P preemptions), any number of times otherwise.
 * Between two such operations nothing can be observed by another thread unless there is a data race,
 * and any data race in the explored schedule is reported from vector clocks (happens-before).
 * Heap blocks come from an arena that is never reused within an execution: access to a freed block or
 * beyond a block, double free and leaks are reported. The library's data is restored before each execution.
 */
#define MC_MAIN
#include "mc.h"
#include "scenario.h"
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <ucontext.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <new>

namespace {
const int MAXT = 10, MAXSYNC = 2048, MAXSTEPS = 20000;
const size_t ARENA = 2<<20, STACK = 128<<10;
char* const BASE = (char*)0x200000000000ull;
const size_t RSIZE = ARENA + MAXT*STACK;

typedef uint16_t Clk;
struct VC { Clk c[MAXT]; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } void clear() { memset(this, 0, sizeof *this); } };

struct Cell { uint32_t exec; int8_t wt; uint8_t watomic_dummy; Clk wc; Clk r[MAXT]; Clk aw[MAXT]; };

enum St { UNUSED, READY, BLOCKED, DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_GUARD, W_SEES };
struct Thr {
	ucontext_t ctx;
	St st; Why why; const void* obj; int target;
	bool timed, mono, timedout, signalled; int64_t deadline;
	VC vc; void* (*fn)(void*); void* arg; void* ret;
	char *heap_mark, *stack_mark;	// what is allocated above and pushed below can't be known to other threads
	bool detached, joined; int slot, waits, mwaits;
	char* tls;
	struct Dtor { void (*f)(void*); void* o; } dtors[16]; int ndtors;
};
Thr thr[MAXT];
int nthr, cur;
ucontext_t engine;
int slots[MAXT*2]; int nslots; int freeslots[MAXT*2], nfree;	// pthread_t values, reused last in first out
const unsigned long PT_BASE = 0x7f0000001000ul;

struct Sync { const void* a; uint32_t exec; VC vc; int owner, type; bool mutex, destroyed; int depth; };
Sync syncs[MAXSYNC];

uint32_t execno;
char ghosts[16][2048];
bool in_body;			// running on a fiber, not inside this file
bool running;			// an execution is under way
bool initialising;		// the library's constructors are running
mc::Ctx* ctx;
int budget, spurious; bool counters; long steps;
int64_t vnow;			// virtual time, ns
int fail_create;
enum Res { RES_OK, RES_FAIL, RES_PRUNE } result;
bool main_done;

char* brk_; char* base_brk;	// arena: next free byte, and where the initial part ends
int8_t* owner;			// for each 16 bytes of the arena, who allocated them
uint8_t* live;			// one byte per arena byte: 0 not allocated, 1 live, 2 freed
struct Blk { size_t size; uint64_t magic; };
long nlive, base_live;
char* arena_copy; uint8_t* live_copy; size_t copy_len;

char *so_lo, *so_hi; char* so_copy;		// the library's writable data
struct Seg { char* p; size_t n; char* copy; } segs[16]; int nsegs;
char* tls_block; size_t tls_size; char* tls_init;

Cell *rcell, *dcell;

void end_execution(Res r) __attribute__((noreturn));
void end_execution(Res r)
{
	result = r; in_body = false; running = false;
	setcontext(&engine);
	abort();
}

void vfail(const char* f, va_list ap) __attribute__((noreturn));
void vfail(const char* f, va_list ap)
{
	in_body = false;
	char b[mc::MSGLEN]; vsnprintf(b, sizeof b, f, ap);
	ctx->record(b);
	end_execution(RES_FAIL);
}
void fail(const char* f, ...) __attribute__((noreturn, format(printf, 1, 2)));
void fail(const char* f, ...) { va_list ap; va_start(ap, f); vfail(f, ap); }
void note(const char* f, ...) __attribute__((format(printf, 1, 2)));
void note(const char* f, ...)
{
	if (!ctx->tracing) return;
	bool b = in_body; in_body = false;
	char t[1000]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap);
	ctx->note("  T%d %s\n", cur, t);
	in_body = b;
}
int choose(int n)
{
	if (n <= 1) return 0;
	bool b = in_body; in_body = false;
	int r = 0; bool pr = false;
	try { r = ctx->choose(n); } catch (mc::Prune&) { pr = true; } catch (mc::Failed&) { end_execution(RES_FAIL); }
	if (pr) end_execution(RES_PRUNE);
	in_body = b;
	return r;
}

Sync* sync_of(const void* a)
{
	size_t i = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 53;
	for (int n = 0; n < MAXSYNC; n++, i = (i+1) % MAXSYNC) {
		Sync& s = syncs[i];
		if (s.exec != execno) { memset(&s, 0, sizeof s); s.exec = execno; s.a = a; s.owner = -1; return &s; }
		if (s.a == a) return &s;
	}
	fail("harness: too many synchronisation objects");
}

Cell* cell_of(const void* p)
{
	const char* q = (const char*)p;
	if (q >= BASE && q < BASE+RSIZE) return rcell + (q-BASE);
	if (q >= so_lo && q < so_hi) return dcell + (q-so_lo);
	return 0;
}
std::string where(const void* p)
{
	const char* q = (const char*)p; char b[300];
	if (q >= BASE && q < BASE+ARENA) {
		const char* s = q; while (s > BASE && !live[s-BASE]) s--;
		while (s > BASE && live[s-1-BASE]) s--;
		snprintf(b, sizeof b, "byte %ld of a %s heap block of %zu bytes", (long)(q-s), live[q-BASE] == 2 ? "freed" : live[q-BASE] ? "live" : "(beyond)", ((Blk*)s-1)->size);
	} else if (q >= BASE && q < BASE+RSIZE) snprintf(b, sizeof b, "the stack of thread %ld", (long)((q-BASE-ARENA)/STACK));
	else { Dl_info di; if (dladdr(p, &di) && di.dli_sname) snprintf(b, sizeof b, "%s", di.dli_sname); else snprintf(b, sizeof b, "static data"); }
	return b;
}
std::string code(void* pc)
{
	Dl_info di; char b[200];
	if (dladdr(pc, &di) && di.dli_sname) { snprintf(b, sizeof b, "%.150s", di.dli_sname); return b; }
	return "?";
}

enum Kind { RD, WR, ARD, AWR, FREEING };
void access(const void* p, size_t n, Kind k, void* pc)
{
	Cell* c = cell_of(p);
	if (!c) return;
	const char* q = (const char*)p;
	Thr& t = thr[cur];
	bool heap = q >= BASE && q < BASE+ARENA;
	for (size_t i = 0; i < n; i++, c++) {
		if (heap && live[q+i-BASE] != 1) {
			in_body = false;
			fail("%s of %s in %s", k == RD || k == ARD ? "read" : k == FREEING ? "free" : "write", where(q+i).c_str(), code(pc).c_str());
		}
		if (c->exec != execno) { memset((void*)c, 0, sizeof *c); c->exec = execno; c->wt = -1; }
		int other = -1; const char* what = "write";
		if (c->wt >= 0 && c->wt != cur && c->wc > t.vc.c[c->wt]) other = c->wt;
		if (k == WR || k == FREEING) for (int u = 0; u < nthr && other < 0; u++) {
			if (u == cur) continue;
			if (c->r[u] > t.vc.c[u]) { other = u; what = "read"; }
			else if (c->aw[u] > t.vc.c[u]) { other = u; what = "atomic change"; }
		}
		if (k == RD) for (int u = 0; u < nthr && other < 0; u++) if (u != cur && c->aw[u] > t.vc.c[u]) { other = u; what = "atomic change"; }
		if (other >= 0) {
			in_body = false;
			fail("data race: %s by thread %d in %s, not synchronised with a %s by thread %d, of %s", k == RD ? "read" : k == WR ? "write" : k == FREEING ? "release" : "atomic access",
				cur, code(pc).c_str(), what, other, where(q+i).c_str());
		}
		switch (k) {
		case WR: case FREEING: c->wt = cur; c->wc = t.vc.c[cur]; break;
		case RD: case ARD: c->r[cur] = t.vc.c[cur]; break;
		case AWR: c->aw[cur] = t.vc.c[cur]; break;
		}
	}
}
/*
 * Can no other thread know of this? Then it need not be given the chance to run before we use it.
 * What a thread has allocated or pushed stays private until the thread could publish it: by starting a thread,
 * releasing a mutex, or by an atomic store or exchange to what is not itself private. Counting up and down does
 * not publish anything.
 */
bool priv(const void* p)
{
	const char* q = (const char*)p; Thr& t = thr[cur];
	const Cell* c = cell_of(p);
	if (c && c->exec == execno) {
		if (c->wt >= 0 && c->wt != cur) return false;
		for (int u = 0; u < nthr; u++) if (u != cur && (c->r[u] || c->aw[u])) return false;
	}
	if (q >= BASE && q < BASE+ARENA) return owner[(q-BASE)>>4] == cur && q >= t.heap_mark;
	if (q >= BASE+ARENA+cur*STACK && q < BASE+ARENA+(cur+1)*STACK) return q < t.stack_mark;
	return false;
}
bool is_static(const void* p) { return (char*)p >= so_lo && (char*)p < so_hi; }
void publish() { Thr& t = thr[cur]; t.heap_mark = brk_; t.stack_mark = (char*)__builtin_frame_address(0); }
inline void tick() { if (++thr[cur].vc.c[cur] == 0xFFFF) fail("harness: clock overflow"); }

/*--- scheduling ---*/
Sync* mutex_of(const void* m) { return sync_of(m); }
bool enabled(int i)
{
	Thr& t = thr[i];
	if (t.st == READY) return true;
	if (t.st != BLOCKED) return false;
	switch (t.why) {
	case W_MUTEX:	return t.timedout || mutex_of(t.obj)->owner < 0;
	case W_JOIN:	return thr[t.target].st == DONE;
	case W_GUARD:	return ((volatile uint8_t*)t.obj)[1] == 0;
	case W_COND:	return t.signalled || t.timedout;
	case W_SLEEP:	return t.timedout;
	case W_SEES:	return thr[t.target].st == DONE || (thr[t.target].st == BLOCKED && (thr[t.target].why == W_JOIN || (thr[t.target].why == W_COND && !enabled(t.target))));
	default:	return false;
	}
}
void tls_switch(int from, int to)
{
	if (!tls_size || from == to) return;
	if (from >= 0) memcpy(thr[from].tls, tls_block, tls_size);
	memcpy(tls_block, thr[to].tls, tls_size);
}
const char* why_name(const Thr& t)
{
	static const char* n[] = {"nothing", "a mutex", "a condition", "the end of another thread", "time to pass", "a static initialisation", "another thread to wait"};
	return n[t.why];
}
void switch_to(int n)
{
	if (n == cur) return;
	int from = cur;
	tls_switch(from, n);
	cur = n;
	bool b = in_body;
	swapcontext(&thr[from].ctx, &thr[n].ctx);
	in_body = b;
}
// The running thread is about to do something others can see (READY), or can't go on (BLOCKED, DONE)
void schedule(bool voluntary = false)
{
	if (!running) return;
	if (++steps > MAXSTEPS) fail("livelock: %ld steps without an end", steps);
	for (;;) {
		int opt[MAXT*2+2], kind[MAXT*2+2], n = 0;
		bool self = enabled(cur);
		bool may = budget > 0 || !self || voluntary;
		if (self) { opt[n] = cur; kind[n++] = 0; }
		if (may) for (int i = 0; i < nthr; i++) if (i != cur && enabled(i)) { opt[n] = i; kind[n++] = 0; }
		bool any = n > 0;
		if (budget > 0 || !any) {
			for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCKED && thr[i].timed && !thr[i].timedout && !(thr[i].why == W_COND && thr[i].signalled)) { opt[n] = -1; kind[n++] = 1; break; }
		}
		if (spurious > 0) for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCKED && thr[i].why == W_COND && !thr[i].signalled && !thr[i].timedout) { opt[n] = i; kind[n++] = 2; }
		if (!n) {
			char b[600]; int k = 0; b[0] = 0;
			for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCKED) k += snprintf(b+k, sizeof b-k, "%s thread %d waits for %s", k ? "," : "", i, why_name(thr[i]));
			fail("everyone waits forever:%s", b);
		}
		int c = choose(n);
		if (kind[c] == 1) {			// time passes up to the first deadline
			if (any) budget--;
			int64_t d = INT64_MAX;
			for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCKED && thr[i].timed && !thr[i].timedout && thr[i].deadline < d) d = thr[i].deadline;
			if (d > vnow) vnow = d;
			note("time passes to %lld ms", (long long)(vnow/1000000));
			for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCKED && thr[i].timed && !thr[i].signalled && thr[i].deadline <= vnow) thr[i].timedout = true;
			continue;
		}
		if (kind[c] == 2) { spurious--; note("thread %d wakes for no reason", opt[c]); thr[opt[c]].signalled = true; continue; }
		if (self && opt[c] != cur && !voluntary) budget--;
		switch_to(opt[c]);
		return;
	}
}
struct Enter {		// from the code under test into this file
	bool was; Enter() : was(in_body) { in_body = false; } ~Enter() { in_body = was; }
};

// Wait until something holds
void block(Why w, const void* obj, int target = -1, bool timed = false, int64_t deadline = 0)
{
	Thr& t = thr[cur];
	t.st = BLOCKED; t.why = w; t.obj = obj; t.target = target; t.timed = timed; t.deadline = deadline; t.timedout = t.signalled = false;
	if (timed && deadline <= vnow) t.timedout = true;
	if (!enabled(cur)) { if (w == W_MUTEX) t.mwaits++; else if (w != W_SEES) t.waits++; note("waits for %s", why_name(t)); }
	schedule();
	t.st = READY; t.why = W_NONE;
}

void finish_thread(void* ret)
{
	Thr& t = thr[cur];
	in_body = true;
	while (t.ndtors > 0) { t.ndtors--; t.dtors[t.ndtors].f(t.dtors[t.ndtors].o); }
	in_body = false;
	note("ends");
	t.ret = ret; t.st = DONE;
	tick();
	if (t.detached) freeslots[nfree++] = t.slot;
	schedule();
	abort();
}
struct ThreadExit { void* ret; };
void fiber_entry(int i)
{
	void* ret = 0;
	in_body = true;
	try { ret = thr[i].fn(thr[i].arg); }
	catch (ThreadExit& e) { ret = e.ret; }
	in_body = false;
	finish_thread(ret);
}
int new_thread(void* (*fn)(void*), void* arg)
{
	if (nthr >= MAXT) fail("harness: too many threads");
	int i = nthr++;
	Thr& t = thr[i]; char* keep = t.tls; memset((void*)&t, 0, sizeof t); t.tls = keep;
	t.fn = fn; t.arg = arg; t.st = READY;
	if (tls_size) { if (!t.tls) t.tls = (char*)malloc(tls_size); memcpy(t.tls, tls_init, tls_size); }
	t.heap_mark = BASE; t.stack_mark = BASE+ARENA+(i+1)*STACK;
	t.slot = nfree ? freeslots[--nfree] : nslots++;
	slots[t.slot] = i;
	if (i) { t.vc = thr[cur].vc; tick(); }
	t.vc.c[i] = 1;
	getcontext(&t.ctx);
	t.ctx.uc_stack.ss_sp = BASE+ARENA+i*STACK; t.ctx.uc_stack.ss_size = STACK; t.ctx.uc_link = 0;
	makecontext(&t.ctx, (void (*)())fiber_entry, 1, i);
	return i;
}
pthread_t pt_of(int i) { return PT_BASE + (unsigned long)thr[i].slot*0x1000; }
int thread_of(pthread_t p)	// -1 if there is no such thread
{
	unsigned long s = (p-PT_BASE)/0x1000;
	if (p < PT_BASE || (p-PT_BASE)%0x1000 || s >= (unsigned long)nslots) return -1;
	for (int k = 0; k < nfree; k++) if (freeslots[k] == (int)s) return -1;
	return slots[s];
}

void* scenario_main(void* s) { ((Scenario*)s)->fn(); return 0; }
void* main_body(void* s)
{
	scenario_main(s);
	in_body = false;
	main_done = true;
	for (int i = 1; i < nthr; i++) if (thr[i].st != DONE) fail("thread %d is still there at the end, waiting for %s", i, why_name(thr[i]));
	if (((Scenario*)s)->leaks && nlive != base_live) fail("%ld heap blocks %s at the end", labs(nlive-base_live), nlive > base_live ? "still allocated" : "too many freed");
	end_execution(RES_OK);
}

void run(mc::Ctx& c, Scenario* s)
{
	ctx = &c; execno++;
	if (brk_ > base_brk) memset(live + (base_brk-BASE), 0, brk_-base_brk);
	brk_ = base_brk; memcpy(BASE, arena_copy, copy_len); memcpy(live, live_copy, copy_len);
	for (int i = 0; i < nsegs; i++) memcpy(segs[i].p, segs[i].copy, segs[i].n);
	nthr = 0; nslots = 0; nfree = 0; cur = 0; nlive = base_live;
	budget = c.param("preemptions", 2); spurious = c.param("spurious", 0); steps = 0; counters = c.param("counters", 1);
	memset(ghosts, 0, sizeof ghosts);
	vnow = 1000000000000ll; fail_create = 0; main_done = false;
	new_thread(main_body, s);
	tls_switch(-1, 0);
	result = RES_OK;
	volatile bool started = false;
	getcontext(&engine);
	if (!started) { started = true; running = true; setcontext(&thr[0].ctx); }
	running = in_body = false;
	if (result == RES_PRUNE) throw mc::Prune();
	if (result == RES_FAIL) throw mc::Failed();
}

/*--- memory ---*/
void* arena_new(size_t n)
{
	size_t need = (sizeof(Blk) + n + 16 + 15) & ~(size_t)15;	// a gap follows
	if (brk_ + need > BASE+ARENA) { if (running) fail("out of memory: %ld blocks", nlive); abort(); }
	Blk* b = (Blk*)brk_; brk_ += need;
	b->size = n; b->magic = 0xB10CB10CB10CB10Cull;
	memset(owner + (((char*)b-BASE)>>4), cur, need>>4);
	char* p = (char*)(b+1);
	memset(live+(p-BASE), 1, n ? n : 1);
	memset(p, 0xA5, n);
	nlive++;
	return p;
}
void* real_malloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
inline bool in_arena(const void* p) { return (char*)p >= BASE && (char*)p < BASE+ARENA; }
void arena_free(void* p, void* pc)
{
	Blk* b = (Blk*)p-1;
	if (running) {
		if (!live[(char*)p-BASE] || b->magic != 0xB10CB10CB10CB10Cull) fail("release of an address that is not a heap block");
		if (live[(char*)p-BASE] == 2) fail("heap block of %zu bytes released twice, in %s", b->size, code(pc).c_str());
		access(p, b->size, FREEING, pc);
	}
	memset(live+((char*)p-BASE), 2, b->size ? b->size : 1);
	nlive--;
}

int setup_segs(struct dl_phdr_info* i, size_t, void* name)
{
	if (!i->dlpi_name || !strstr(i->dlpi_name, (const char*)name)) return 0;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		const ElfW(Phdr)& p = i->dlpi_phdr[k];
		if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
			char* a = (char*)i->dlpi_addr + p.p_vaddr;
			segs[nsegs].p = a; segs[nsegs].n = p.p_memsz; nsegs++;
			if (!so_lo || a < so_lo) so_lo = a;
			if (a + p.p_memsz > so_hi) so_hi = a + p.p_memsz;
		}
		if (p.p_type == PT_GNU_RELRO) {}
		if (p.p_type == PT_TLS) { tls_size = p.p_memsz; tls_init = (char*)calloc(1, tls_size); memcpy(tls_init, (char*)i->dlpi_addr + p.p_vaddr, p.p_filesz); tls_block = (char*)i->dlpi_tls_data; }
	}
	return 1;
}

struct Load {
	Load() {
		char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self-4);
		if (n < 0) exit(3);
		strcpy(self+n, ".so");
		if (mmap(BASE, RSIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0) != BASE) { perror("mmap"); exit(3); }
		owner = (int8_t*)mmap(0, ARENA>>4, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		live = (uint8_t*)mmap(0, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		rcell = (Cell*)mmap(0, sizeof(Cell)*RSIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		brk_ = BASE; execno = 1; nthr = 1; thr[0].st = READY; nslots = 1;
		initialising = true; in_body = true;
		void* h = dlopen(self, RTLD_NOW|RTLD_LOCAL);
		in_body = false; initialising = false;
		if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
		dl_iterate_phdr(setup_segs, self);
		// What is read-only after relocation is not restored
		for (int i = 0; i < nsegs; i++) {
			char* p = segs[i].p; char* e = p + segs[i].n;
			// skip pages that can't be written
			while (p < e) {
				int fd[2]; if (pipe(fd)) exit(3);
				(void)!write(fd[1], "x", 1);
				// read() into the first byte of each page fails with EFAULT when it is read-only
				char keep = *p; ssize_t r = read(fd[0], p, 1);
				close(fd[0]); close(fd[1]);
				if (r == 1) { *p = keep; break; }
				p = (char*)(((uintptr_t)p + 4096) & ~4095ul);
			}
			segs[i].n = e > p ? e-p : 0; segs[i].p = p;
			segs[i].copy = (char*)malloc(segs[i].n+1); memcpy(segs[i].copy, p, segs[i].n);
		}
		dcell = (Cell*)mmap(0, sizeof(Cell)*(so_hi-so_lo+16), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		base_brk = brk_; copy_len = brk_-BASE; base_live = nlive;
		arena_copy = (char*)malloc(copy_len+1); memcpy(arena_copy, BASE, copy_len);
		live_copy = (uint8_t*)malloc(copy_len+1); memcpy(live_copy, live, copy_len);
		if (tls_size && !tls_block) { fprintf(stderr, "thread-local data not found\n"); exit(3); }
		Scenario* s = (Scenario*)dlsym(h, "mc_scenarios");
		if (!s) { fprintf(stderr, "no scenarios\n"); exit(3); }
		for (; s->name; s++) { Scenario* q = s; mc::configs().push_back(mc::Config{s->name, [q](mc::Ctx& c) { run(c, q); }, s->split, false, false, 30}); }
	}
} load;
inline bool ours() { return in_body && running; }
} // namespace

#define PC __builtin_return_address(0)

/*--- operator new and delete ---*/
void* operator new(size_t n) { return in_body ? arena_new(n) : real_malloc(n); }
void* operator new[](size_t n) { return in_body ? arena_new(n) : real_malloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return in_body ? arena_new(n) : real_malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return in_body ? arena_new(n) : real_malloc(n); }
static inline void del(void* p, void* pc) { if (!p) return; if (in_arena(p)) { bool b = in_body; in_body = false; arena_free(p, pc); in_body = b; } else free(p); }
void operator delete(void* p) noexcept { del(p, PC); }
void operator delete[](void* p) noexcept { del(p, PC); }
void operator delete(void* p, size_t) noexcept { del(p, PC); }
void operator delete[](void* p, size_t) noexcept { del(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p, PC); }

extern "C" {
/*--- for scenarios ---*/
int mc_choose(int n) { Enter e; return choose(n); }
void mc_prune() { end_execution(RES_PRUNE); }
void mc_fail(const char* f, ...) { in_body = false; va_list ap; va_start(ap, f); vfail(f, ap); }
void mc_note(const char* f, ...)
{
	if (!ctx->tracing) return;
	Enter e; char t[1000]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap);
	size_t n = strlen(t); ctx->note("  T%d %s%s", cur, t, n && t[n-1] == '\n' ? "" : "\n");
}
void mc_setkey(const char* f, ...) { Enter e; char t[1000]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap); ctx->setkey_s(t); }
long mc_param(const char* n, long d) { Enter e; return ctx->param(n, d); }
void mc_state(uint64_t h) { Enter e; ctx->state(h); }
void mc_outcome(uint64_t h) { Enter e; ctx->outcome(h); }
int sched_id() { return cur; }
int sched_waits() { return thr[cur].waits; }
int sched_mutex_waits() { return thr[cur].mwaits; }
char* sched_ghost(int i) { return ghosts[i]; }
void sched_until_waiting(int id) { Enter e; block(W_SEES, 0, id); }
void sched_advance(long long ns) { vnow += ns; }
int sched_waiting(int i) { return i < nthr && thr[i].st == BLOCKED && !enabled(i); }
long sched_live() { return nlive-base_live; }
long sched_time() { return vnow/1000000; }
void sched_fail_create(int n) { fail_create = n; }
int sched_unjoined() { int n = 0; for (int i = 1; i < nthr; i++) if (thr[i].st == DONE && !thr[i].joined && !thr[i].detached) n++; return n; }
void sched_free_point() { Enter e; schedule(true); }

void __assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
	if (running) { in_body = false; const char* s = strrchr(file, '/'); fail("assertion %s failed in %s at %s:%u", e, fn, s ? s+1 : file, line); }
	fprintf(stderr, "Assertion %s failed at %s:%u\n", e, file, line); abort();
}

/*--- the thread sanitizer's interface ---*/
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
	void __tsan_read##n(void* p) { if (ours()) access(p, n, RD, PC); } \
	void __tsan_write##n(void* p) { if (ours()) access(p, n, WR, PC); } \
	void __tsan_unaligned_read##n(void* p) { if (ours()) access(p, n, RD, PC); } \
	void __tsan_unaligned_write##n(void* p) { if (ours()) access(p, n, WR, PC); } \
	void __tsan_volatile_read##n(void* p) { if (ours()) access(p, n, RD, PC); } \
	void __tsan_volatile_write##n(void* p) { if (ours()) access(p, n, WR, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if (ours()) access(p, n, RD, PC); }
void __tsan_write_range(void* p, size_t n) { if (ours()) access(p, n, WR, PC); }
void __tsan_vptr_update(void** p, void* v) { if (ours()) access(p, 8, *p == v ? RD : WR, PC); }
void __tsan_vptr_read(void** p) { if (ours()) access(p, 8, RD, PC); }

static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static inline bool rel(int mo) { return mo >= 3; }
static void at_load(const volatile void* p, size_t n, int mo, void* pc)
{
	if (!ours()) return;
	Enter e; if (!priv((const void*)p) && (counters || !is_static((const void*)p))) schedule();
	access((const void*)p, n, ARD, pc);
	if (acq(mo)) thr[cur].vc.join(sync_of((const void*)p)->vc);
}
static void at_store(const volatile void* p, size_t n, int mo, void* pc)
{
	if (!ours()) return;
	Enter e; if (!priv((const void*)p)) { schedule(); publish(); }
	access((const void*)p, n, AWR, pc);
	Sync* s = sync_of((const void*)p);
	if (rel(mo)) { s->vc = thr[cur].vc; tick(); } else s->vc.clear();
}
static void at_rmw(const volatile void* p, size_t n, int mo, void* pc, bool pub = true)
{
	if (!ours()) return;
	Enter e; if (!priv((const void*)p) && (pub || counters || !is_static((const void*)p))) { schedule(); if (pub) publish(); }
	access((const void*)p, n, AWR, pc);
	Sync* s = sync_of((const void*)p);
	if (acq(mo)) thr[cur].vc.join(s->vc);
	if (rel(mo)) { s->vc.join(thr[cur].vc); tick(); }
}
#define ATOM(b, T) \
	T __tsan_atomic##b##_load(const volatile T* p, int mo) { at_load(p, sizeof(T), mo, PC); return *p; } \
	void __tsan_atomic##b##_store(volatile T* p, T v, int mo) { at_store(p, sizeof(T), mo, PC); *p = v; } \
	T __tsan_atomic##b##_exchange(volatile T* p, T v, int mo) { at_rmw(p, sizeof(T), mo, PC); T o = *p; *p = v; return o; } \
	T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int mo) { at_rmw(p, sizeof(T), mo, PC, false); T o = *p; *p = o+v; return o; } \
	T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int mo) { at_rmw(p, sizeof(T), mo, PC, false); T o = *p; *p = o-v; return o; } \
	T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int mo) { at_rmw(p, sizeof(T), mo, PC); T o = *p; *p = o&v; return o; } \
	T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int mo) { at_rmw(p, sizeof(T), mo, PC); T o = *p; *p = o|v; return o; } \
	T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int mo) { at_rmw(p, sizeof(T), mo, PC); T o = *p; *p = o^v; return o; } \
	T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int mo) { at_rmw(p, sizeof(T), mo, PC); T o = *p; *p = ~(o&v); return o; } \
	static bool cas##b(volatile T* p, T* x, T v, int mo, int fmo, void* pc) { \
		if (ours()) { \
			Enter e; if (!priv((const void*)p)) { schedule(); publish(); } bool ok = *p == *x; \
			access((const void*)p, sizeof(T), ok ? AWR : ARD, pc); \
			Sync* s = sync_of((const void*)p); \
			if (acq(ok ? mo : fmo)) thr[cur].vc.join(s->vc); \
			if (ok && rel(mo)) { s->vc.join(thr[cur].vc); tick(); } \
		} \
		if (*p == *x) { *p = v; return true; } \
		*x = *p; return false; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* x, T v, int mo, int fmo) { return cas##b(p, x, v, mo, fmo, PC); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* x, T v, int mo, int fmo) { return cas##b(p, x, v, mo, fmo, PC); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T x, T v, int mo, int fmo) { cas##b(p, &x, v, mo, fmo, PC); return x; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, __uint128_t)
static char fence_obj;
void __tsan_atomic_thread_fence(int mo)
{
	if (!ours()) return;
	Enter e; schedule(); publish();
	Sync* s = sync_of(&fence_obj);
	if (acq(mo)) thr[cur].vc.join(s->vc);
	if (rel(mo)) { s->vc.join(thr[cur].vc); tick(); }
}
void __tsan_atomic_signal_fence(int) {}

/*--- what the library asks of libc ---*/
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (ours()) { access(s, n, RD, PC); access(d, n, WR, PC); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (ours()) { access(s, n, RD, PC); access(d, n, WR, PC); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (ours()) access(d, n, WR, PC); return memset(d, v, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (ours()) { access(a, n, RD, PC); access(b, n, RD, PC); } return memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int v, size_t n) { void* r = (void*)memchr(a, v, n); if (ours()) access(a, r ? (char*)r-(char*)a+1 : n, RD, PC); return r; }
size_t __wrap_strlen(const char* s) { size_t n = strlen(s); if (ours()) access(s, n+1, RD, PC); return n; }
int __wrap_strcmp(const char* a, const char* b) { if (ours()) { access(a, strlen(a)+1, RD, PC); access(b, strlen(b)+1, RD, PC); } return strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { if (ours()) { access(a, strnlen(a, n), RD, PC); access(b, strnlen(b, n), RD, PC); } return strncmp(a, b, n); }
char* __wrap_strcpy(char* d, const char* s) { if (ours()) { size_t n = strlen(s)+1; access(s, n, RD, PC); access(d, n, WR, PC); } return strcpy(d, s); }
char* __wrap_strchr(const char* s, int c) { if (ours()) access(s, strlen(s)+1, RD, PC); return (char*)strchr(s, c); }
char* __wrap_strrchr(const char* s, int c) { if (ours()) access(s, strlen(s)+1, RD, PC); return (char*)strrchr(s, c); }
void __tree_change(void* header, void* pc) { if (ours()) access(header, 32, WR, pc); }
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h)
{ __tree_change(h, PC); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h); }
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h)
{ __tree_change(h, PC); return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h); }
void* __wrap_malloc(size_t n) { return in_body ? arena_new(n) : malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!in_body) return calloc(a, b); void* p = arena_new(a*b); memset(p, 0, a*b); return p; }
void __wrap_free(void* p) { del(p, PC); }
void* __wrap_realloc(void* p, size_t n)
{
	if (!in_body || (p && !in_arena(p))) return realloc(p, n);
	void* q = arena_new(n);
	if (p) { size_t o = ((Blk*)p-1)->size; memcpy(q, p, o < n ? o : n); del(p, PC); }
	return q;
}

/*--- static initialisation ---*/
int __cxa_guard_acquire(long long* g)
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	if (!running) { if (b[0]) return 0; b[1] = 1; return 1; }
	Enter e;
	for (;;) {
		schedule();
		if (b[0]) { thr[cur].vc.join(sync_of(g)->vc); return 0; }
		if (!b[1]) { b[1] = 1; thr[cur].vc.join(sync_of(g)->vc); return 1; }
		block(W_GUARD, g);
	}
}
void __cxa_guard_release(long long* g)
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	b[0] = 1; b[1] = 0;
	if (running) { Enter e; sync_of(g)->vc = thr[cur].vc; tick(); schedule(); }
}
void __cxa_guard_abort(long long* g) { ((volatile uint8_t*)g)[1] = 0; }
int __cxa_thread_atexit(void (*f)(void*), void* o, void*)
{
	Thr& t = thr[cur];
	if (t.ndtors < 16) { t.dtors[t.ndtors].f = f; t.dtors[t.ndtors].o = o; t.ndtors++; }
	return 0;
}

/*--- time ---*/
int clock_gettime(clockid_t id, struct timespec* ts)
{
	if (!running) return syscall(SYS_clock_gettime, id, ts);
	int64_t n = vnow + (id == CLOCK_MONOTONIC ? 0 : 1700000000000000000ll);
	ts->tv_sec = n/1000000000; ts->tv_nsec = n%1000000000;
	return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000;
	return 0;
}
time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static int sleep_ns(int64_t ns)
{
	Enter e;
	if (ns <= 0) schedule(true); else block(W_SLEEP, 0, -1, true, vnow+ns);
	return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem)
{
	if (!running) return syscall(SYS_nanosleep, r, rem);
	if (r->tv_nsec < 0 || r->tv_nsec > 999999999 || r->tv_sec < 0) { errno = EINVAL; return -1; }
	return sleep_ns(r->tv_sec*1000000000ll + r->tv_nsec);
}
int usleep(useconds_t us) { if (running) return sleep_ns(us*1000ll); struct timespec t = { us/1000000, us%1000000*1000 }; return syscall(SYS_nanosleep, &t, 0); }
int sched_yield() { if (!running) return syscall(SYS_sched_yield); return sleep_ns(0); }
static bool abs_of(const struct timespec* ts, bool mono, int64_t& d)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999) return false;
	__int128 v = (__int128)ts->tv_sec*1000000000 + ts->tv_nsec - (mono ? 0 : 1700000000000000000ll);
	d = v > INT64_MAX/2 ? INT64_MAX/2 : v < 0 ? 0 : (int64_t)v;
	return true;
}

/*--- mutexes ---*/
int pthread_mutexattr_init(pthread_mutexattr_t* a) { if (ours()) access(a, 4, WR, PC); *(int*)a = 0x40; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { if (ours()) access(a, 4, WR, PC); *(int*)a = 0x40|t; return 0; }
int pthread_mutexattr_gettype(const pthread_mutexattr_t* a, int* t) { if (ours()) access(a, 4, RD, PC); *t = *(int*)a & 7; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t* a) { if (ours()) access(a, 4, WR, PC); *(int*)a = 0; return 0; }
// The type of a mutex is kept in the mutex itself, where the system keeps it too
static int& mtype(pthread_mutex_t* m) { return m->__data.__kind; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	Enter e;
	int t = PTHREAD_MUTEX_NORMAL;
	if (a) {
		if (e.was && running) access(a, 4, RD, PC);
		if (running && !(*(int*)a & 0x40)) fail("mutex initialised with attributes that are not");
		t = *(int*)a & 7;
	}
	if (e.was && running) access(m, sizeof *m, WR, PC);
	memset((void*)m, 0, sizeof *m); mtype(m) = t;
	if (running) { Sync* s = mutex_of(m); VC v = s->vc; const void* k = s->a; memset(s, 0, sizeof *s); s->exec = execno; s->a = k; s->owner = -1; s->vc = v; }
	return 0;
}
static Sync* checked(pthread_mutex_t* m, void* pc)
{
	access(m, sizeof *m, RD, pc);
	Sync* s = mutex_of(m);
	if (s->destroyed) fail("use of a destroyed mutex in %s", code(pc).c_str());
	return s;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (!running) return 0;
	Enter e; Sync* s = checked(m, PC);
	if (s->owner >= 0) fail("mutex destroyed while thread %d holds it", s->owner);
	for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCKED && thr[i].why == W_MUTEX && thr[i].obj == m) fail("mutex destroyed while thread %d waits for it", i);
	access(m, sizeof *m, WR, PC);
	s->destroyed = true;
	return 0;
}
static int lock(pthread_mutex_t* m, bool timed, int64_t deadline, void* pc)
{
	schedule();
	Sync* s = checked(m, pc);
	if (s->owner == cur) {
		if (mtype(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
		if (mtype(m) == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
	}
	while (s->owner >= 0) {
		block(W_MUTEX, m, -1, timed, deadline);
		if (s->owner >= 0 && timed && thr[cur].timedout) return ETIMEDOUT;
	}
	s->owner = cur; s->depth = 1; thr[cur].vc.join(s->vc);
	return 0;
}
static int unlock(pthread_mutex_t* m, void* pc)
{
	Sync* s = checked(m, pc);
	if (s->owner != cur) {
		if (mtype(m) == PTHREAD_MUTEX_NORMAL) fail("mutex released by thread %d which does not hold it, in %s", cur, code(pc).c_str());
		return EPERM;
	}
	publish();
	if (--s->depth == 0) { s->owner = -1; s->vc.join(thr[cur].vc); tick(); }
	return 0;
}
// While the library is loaded there is one thread only
static int load_lock(pthread_mutex_t* m, int busy) { if (m->__data.__lock) return mtype(m) == PTHREAD_MUTEX_RECURSIVE ? 0 : busy; m->__data.__lock = 1; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!running) return load_lock(m, EDEADLK); Enter e; return lock(m, false, 0, PC); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{ if (!running) return 0; Enter e; int64_t d; if (!abs_of(ts, false, d)) return EINVAL; return lock(m, true, d, PC); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{ if (!running) return 0; Enter e; int64_t d; if (!abs_of(ts, c == CLOCK_MONOTONIC, d)) return EINVAL; return lock(m, true, d, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!running) return load_lock(m, EBUSY);
	Enter e; schedule();
	Sync* s = checked(m, PC);
	if (s->owner == cur && mtype(m) == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
	if (s->owner >= 0) return EBUSY;
	s->owner = cur; s->depth = 1; thr[cur].vc.join(s->vc);
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!running) { int was = m->__data.__lock; m->__data.__lock = 0; return was ? 0 : EPERM; } Enter e; schedule(); return unlock(m, PC); }

/*--- conditions ---*/
int pthread_condattr_init(pthread_condattr_t* a) { *(int*)a = 0; return 0; }
int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { *(int*)a = c == CLOCK_MONOTONIC; return 0; }
int pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
	if (ours()) access(c, sizeof *c, WR, PC);
	memset((void*)c, 0, sizeof *c);
	if (a) c->__data.__wrefs = *(int*)a;		// which clock
	if (running) { Enter e; Sync* s = sync_of(c); s->destroyed = false; }
	return 0;
}
static void checked_cond(pthread_cond_t* c, void* pc) { access(c, sizeof *c, RD, pc); if (sync_of(c)->destroyed) fail("use of a destroyed condition in %s", code(pc).c_str()); }
int pthread_cond_destroy(pthread_cond_t* c)
{
	if (!running) return 0;
	Enter e; checked_cond(c, PC);
	for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCKED && thr[i].why == W_COND && thr[i].obj == c && !thr[i].signalled) fail("condition destroyed while thread %d waits for it", i);
	access(c, sizeof *c, WR, PC); sync_of(c)->destroyed = true;
	return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline, void* pc)
{
	schedule();
	checked_cond(c, pc);
	Sync* s = checked(m, pc);
	if (s->owner != cur) fail("condition waited for without holding the mutex, in %s", code(pc).c_str());
	if (s->depth != 1) fail("condition waited for holding a mutex twice");
	s->owner = -1; s->vc.join(thr[cur].vc); tick(); publish();
	block(W_COND, c, -1, timed, deadline);
	int r = thr[cur].timedout && !thr[cur].signalled ? ETIMEDOUT : 0;
	while (s->owner >= 0) block(W_MUTEX, m);
	s->owner = cur; s->depth = 1; thr[cur].vc.join(s->vc);
	return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!running) return 0; Enter e; return cwait(c, m, false, 0, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{ if (!running) return 0; Enter e; int64_t d; if (!abs_of(ts, c->__data.__wrefs, d)) return EINVAL; return cwait(c, m, true, d, PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{ if (!running) return 0; Enter e; int64_t d; if (!abs_of(ts, k == CLOCK_MONOTONIC, d)) return EINVAL; return cwait(c, m, true, d, PC); }
static int wake(pthread_cond_t* c, bool all, void* pc)
{
	schedule();
	checked_cond(c, pc);
	int w[MAXT], n = 0;
	for (int i = 0; i < nthr; i++) if (thr[i].st == BLOCKED && thr[i].why == W_COND && thr[i].obj == c && !thr[i].signalled && !thr[i].timedout) w[n++] = i;
	if (all) for (int k = 0; k < n; k++) thr[w[k]].signalled = true;
	else if (n) thr[w[choose(n)]].signalled = true;
	return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { if (!running) return 0; Enter e; return wake(c, false, PC); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!running) return 0; Enter e; return wake(c, true, PC); }

/*--- threads ---*/
pthread_t pthread_self() { return running ? pt_of(cur) : PT_BASE; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	if (!running) abort();
	Enter e; schedule();
	if (fail_create && --fail_create == 0) { note("pthread_create fails"); return EAGAIN; }
	int i = new_thread(fn, arg);
	publish();
	note("starts thread %d", i);
	// The new thread may run before its id is stored
	schedule();
	access(p, sizeof *p, WR, PC);
	*p = pt_of(i);
	return 0;
}
static int joinable(pthread_t p)
{
	int i = thread_of(p);
	if (i < 0 || thr[i].joined || thr[i].detached) fail("join or detach of a thread that was joined or detached before (%lx)", (unsigned long)p);
	for (int k = 0; k < nthr; k++) if (thr[k].st == BLOCKED && thr[k].why == W_JOIN && thr[k].target == i) fail("two threads join thread %d", i);
	return i;
}
static void reap(int i) { thr[i].joined = true; freeslots[nfree++] = thr[i].slot; }
int pthread_join(pthread_t p, void** ret)
{
	if (!running) return 0;
	Enter e; schedule();
	int i = joinable(p);
	if (i == cur) return EDEADLK;
	if (thr[i].st != DONE) block(W_JOIN, 0, i);
	thr[cur].vc.join(thr[i].vc);
	if (ret) *ret = thr[i].ret;
	reap(i);
	return 0;
}
int pthread_tryjoin_np(pthread_t p, void** ret)
{
	if (!running) return 0;
	Enter e; schedule();
	int i = joinable(p);
	if (thr[i].st != DONE) return EBUSY;
	thr[cur].vc.join(thr[i].vc);
	if (ret) *ret = thr[i].ret;
	reap(i);
	return 0;
}
int pthread_detach(pthread_t p)
{
	if (!running) return 0;
	Enter e; schedule();
	int i = joinable(p);
	thr[i].detached = true;
	if (thr[i].st == DONE) freeslots[nfree++] = thr[i].slot;
	return 0;
}
void pthread_exit(void* r) { in_body = true; throw ThreadExit{r}; }
int pthread_once(pthread_once_t* o, void (*f)())
{
	if (!running) { if (*o != 2) { *o = 2; f(); } return 0; }
	Enter e;
	for (;;) {
		schedule();
		if (*o == 2) { thr[cur].vc.join(sync_of(o)->vc); return 0; }
		if (*o == 0) break;
		block(W_GUARD, o);
	}
	*o = 1|1<<8; in_body = true; f(); in_body = false; *o = 2;
	sync_of(o)->vc = thr[cur].vc; tick(); schedule();
	return 0;
}
struct Key { bool used; void* v[MAXT]; uint32_t exec; };
static Key keys[32];
int pthread_key_create(pthread_key_t* k, void (*)(void*)) { for (int i = 0; i < 32; i++) if (!keys[i].used) { keys[i].used = true; *k = i; return 0; } return EAGAIN; }
int pthread_key_delete(pthread_key_t k) { keys[k].used = false; return 0; }
int pthread_setspecific(pthread_key_t k, const void* v) { if (keys[k].exec != execno) { memset(keys[k].v, 0, sizeof keys[k].v); keys[k].exec = execno; } keys[k].v[cur] = (void*)v; return 0; }
void* pthread_getspecific(pthread_key_t k) { return keys[k].exec == execno ? keys[k].v[cur] : 0; }
int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }	// coarser than real
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }
int pthread_spin_init(pthread_spinlock_t* l, int) { *(int*)l = 0; return 0; }
}
