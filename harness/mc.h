/*
 * A small exhaustive explorer for real code.
 *
 * A harness registers named configurations, each with a deterministic body that asks choose(n) for
 * every decision. The explorer runs the body once for every complete choice sequence (stateless
 * depth-first enumeration of the choice tree), spread over worker processes, and checks on every one:
 *  - whatever the body checks itself, reporting through fail()
 *  - no crash, failed assertion or sanitizer report
 *  - no heap block still allocated when the body has returned that was not allocated before
 *  - termination
 * Every failure is replayed alone in a fresh process before it is reported.
 */
#ifndef MC_H
#define MC_H
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(
	void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
#endif

namespace mc {

const int MAXD = 8192;		// longest choice sequence
const int RING = 24;		// how many earlier executions are kept for a replay with history
const int RINGD = 512;
const int MAXW = 64;
const int MSGLEN = 4000;
const int MAXFAIL = 48;
const uint32_t MAXTASK = 1u << 22;

struct Prune {};		// abandon this execution, it is not ours (or not a case)
struct Failed {};		// a violation was recorded

struct Failure {
	int	len;
	uint32_t choice[MAXD];
	char	key[1024];
	char	msg[MSGLEN];
	int	worker;
};

struct WorkerShm {		// lives in memory shared with the parent
	std::atomic<uint64_t> beat;
	std::atomic<uint64_t> executions, transitions, cases, pruned;
	std::atomic<int> maxdepth;
	std::atomic<int> in_body;
	volatile int	len;			// of the execution under way
	volatile uint32_t choice[MAXD], width[MAXD];
	volatile int	claimed;		// do we own the current prefix
	volatile uint32_t taskno;		// prefixes seen so far
	volatile int	done;
	char		key[1024];
	int		ring_n, ring_len[RING];
	uint32_t	ring[RING][RINGD];
	int		nsample, sample_len[4];
	uint32_t	sample[4][RINGD];
	uint64_t	extra[16];		// harness-defined counters
};

struct Shared {
	std::atomic<int> stop;
	std::atomic<int> nfail;
	Failure	fails[MAXFAIL];
	std::atomic<uint64_t> nstates, noutcomes;
	std::atomic<int> states_full;
	std::atomic<uint8_t> claimed[MAXTASK];
	WorkerShm w[MAXW];
};

struct HashSet {		// lock-free insert-only set of non-zero 64-bit hashes in shared memory
	std::atomic<uint64_t>*	tab = 0;
	uint64_t	mask = 0;
	void init(int bits) {
		mask = (1ull << bits) - 1;
		tab = (std::atomic<uint64_t>*)mmap(0, sizeof(uint64_t) << bits, PROT_READ|PROT_WRITE,
			MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if (tab == MAP_FAILED) { perror("mmap"); exit(3); }
	}
	int insert(uint64_t h) {	// 1 new, 0 seen, -1 full
		if (!h) h = 1;
		uint64_t	i = (h * 0x9E3779B97F4A7C15ull >> 20) & mask;
		for (int n = 0; n < 256; n++, i = (i+1) & mask) {
			uint64_t	v = tab[i].load(std::memory_order_relaxed);
			if (v == h) return 0;
			if (v == 0) {
				if (tab[i].compare_exchange_strong(v, h)) return 1;
				if (v == h) return 0;
			}
		}
		return -1;
	}
};

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
	return h;
}
inline uint64_t hstr(const std::string& s, uint64_t h = 14695981039346656037ull) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

// Heap accounting. Only blocks allocated inside the body count.
extern volatile long	live_blocks;
extern volatile long	alloc_calls;

struct Ctx;
struct Config {
	std::string	name;
	std::function<void(Ctx&)> body;
	int		split;		// choice depth at which work is shared out
	bool		soft_prune;	// run foreign prefixes to the end instead of throwing
	bool		check_leaks;
	double		hang_s;
};

struct Ctx {
	WorkerShm*	w = 0;
	Shared*		sh = 0;
	Config*		cfg = 0;
	HashSet		*states = 0, *outcomes = 0;
	std::map<std::string,long>	params;
	std::set<std::string>		known;
	bool		tracing = false, replaying = false;
	std::string	trace;
	int		pos = 0;
	int		fixed = 0;		// length of the part of the path that is prescribed
	bool		muted = false;		// soft-pruned: default choices, nothing counts
	bool		failed = false;
	int		diverge = 0;
	bool		custom_cases = false;
	std::vector<std::string> known_hit;
	std::string	fail_key, fail_msg;

	long param(const char* n, long dflt) const {
		auto i = params.find(n); return i == params.end() ? dflt : i->second;
	}
	int choose(int n) {
		if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(3); }
		if (muted) return 0;
		if (pos >= MAXD) { fail("execution takes more than %d choices", MAXD); return 0; }
		if (pos < fixed) {
			uint32_t c = w->choice[pos];
			if (w->width[pos] == 0) w->width[pos] = n;	// replaying a recorded prefix
			if (w->width[pos] != (uint32_t)n || c >= (uint32_t)n) {
				fprintf(stderr, "mc: replay diverged at choice %d: %u of %u, now of %d\n",
					pos, c, w->width[pos], n);
				_exit(9);
			}
			pos++;
			if (pos > w->len) w->len = pos;
			if (pos == cfg->split && !replaying && !w->claimed) claim();	// ours to explore from here?
			return c;
		}
		w->choice[pos] = 0; w->width[pos] = n; w->len = ++pos;
		if (pos == cfg->split && !replaying && !w->claimed) claim();
		return 0;
	}
	bool flip() { return choose(2) != 0; }
	void claim() {
		uint32_t t = w->taskno;
		if (t >= MAXTASK) { fprintf(stderr, "mc: too many prefixes\n"); _exit(3); }
		uint8_t z = 0;
		if (sh->claimed[t].compare_exchange_strong(z, 1)) { w->claimed = 1; return; }
		if (cfg->soft_prune) { muted = true; return; }
		throw Prune();
	}
	void prune() { throw Prune(); }
	void setkey(const char* f, ...) __attribute__((format(printf, 2, 3))) {
		va_list ap; va_start(ap, f); vsnprintf(w->key, sizeof(w->key), f, ap); va_end(ap);
	}
	void setkey_s(const std::string& s) {
		size_t n = std::min(s.size(), sizeof(w->key)-1);
		memcpy(w->key, s.data(), n); w->key[n] = 0;
	}
	void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
		if (!tracing) return;
		char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap);
		trace += b;
		if (getenv("MC_VERBOSE")) { fputs(b, stderr); fflush(stderr); }
	}
	// Record a violation of the property. Never returns normally unless in soft mode.
	void fail(const char* f, ...) __attribute__((format(printf, 2, 3))) {
		char b[MSGLEN]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap);
		record(b);
		if (!cfg->soft_prune) throw Failed();
	}
	void record(const char* msg) {
		if (muted || failed) return;
		failed = true;
		if (w->key[0] && known.count(w->key)) {
			fail_key = w->key; failed = true; fail_msg = "";
			known_hit.push_back(w->key);
			return;
		}
		fail_key = w->key; fail_msg = msg;
	}
	void state(uint64_t h) {
		if (muted || !states) return;
		int r = states->insert(h);
		if (r > 0) sh->nstates++; else if (r < 0) sh->states_full = 1;
	}
	void outcome(uint64_t h) {
		if (muted || !outcomes) return;
		if (outcomes->insert(h) > 0) sh->noutcomes++;
	}
	void cases(uint64_t n) { custom_cases = true; if (!muted) w->cases += n; }
	void extra(int i, uint64_t n = 1) { if (!muted) w->extra[i] += n; }
};

extern std::vector<Config>& configs();
struct Reg {
	Reg(const char* name, std::function<void(Ctx&)> body, int split = 2, bool soft = false,
		bool leaks = true, double hang_s = 20) {
		configs().push_back(Config{name, body, split, soft, leaks, hang_s});
	}
};
#define MC_CONFIG(id, name, ...) static mc::Reg reg_##id(name, __VA_ARGS__)

extern std::vector<std::string> extra_names;	// names of the harness-defined counters

#ifdef MC_MAIN
std::vector<Config>& configs() { static std::vector<Config> v; return v; }
volatile long live_blocks, alloc_calls;
std::vector<std::string> extra_names;

#ifdef MC_ASAN
static volatile int counting;
static void on_malloc(const volatile void* p, size_t) { if (counting && p) { live_blocks++; alloc_calls++; } }
static void on_free(const volatile void* p) { if (counting && p) live_blocks--; }
#else
static volatile int counting;
#endif

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec/1e9; }

// Run the body once on the current path. 0 ok, 1 failed, 2 pruned
static int run_once(Ctx& c, bool second = false)
{
	c.pos = 0; c.muted = false; c.failed = false; c.trace.clear();
	c.w->key[0] = 0; c.fail_msg.clear(); c.fail_key.clear();
	if (!c.fixed) c.w->len = 0;
	int r = 0;
	long before = live_blocks;
	c.w->in_body = 1;
	counting = 1;
	try { c.cfg->body(c); }
	catch (Prune&) { r = 2; }
	catch (Failed&) { r = 1; }
	counting = 0;
	c.w->in_body = 0;
	if (c.failed) r = 1;
	if (c.muted) r = 2;
	c.w->len = c.pos;
#ifdef MC_ASAN
	if (r == 0 && c.cfg->check_leaks && live_blocks != before) {
		long d = live_blocks - before;
		if (!second) {			// a first-time initialisation? Once more
			int len = c.pos, keep = c.fixed; c.fixed = len;
			int cl = c.w->claimed; c.w->claimed = 1;
			int r2 = run_once(c, true);
			c.fixed = keep; c.w->len = len; c.w->claimed = cl;
			return r2;
		}
		char b[200]; snprintf(b, sizeof b, "%ld heap blocks %s after everything was dropped",
			d > 0 ? d : -d, d > 0 ? "still allocated" : "too many freed");
		c.record(b);
		if (c.failed) r = 1;
	}
#endif
	live_blocks = before;
	return r;
}

static void push_failure(Ctx& c, const char* key, const char* msg, int worker)
{
	int n = c.sh->nfail++;
	if (n >= MAXFAIL) { c.sh->nfail = MAXFAIL; c.sh->stop = 1; return; }
	Failure& f = c.sh->fails[n];
	f.len = c.w->len;
	for (int i = 0; i < f.len; i++) f.choice[i] = c.w->choice[i];
	snprintf(f.key, sizeof f.key, "%s", key);
	snprintf(f.msg, sizeof f.msg, "%s", msg);
	f.worker = worker;
}

// Step the path to the next one in depth-first order; false when the tree is exhausted
static bool advance(Ctx& c)
{
	WorkerShm* w = c.w;
	int len = w->len;
	while (len > 0 && w->choice[len-1] + 1 >= w->width[len-1]) len--;
	if (len == 0) return false;
	w->choice[len-1] = w->choice[len-1] + 1;
	if (len <= c.cfg->split) { w->claimed = 0; w->taskno = w->taskno + 1; }
	w->len = len;
	c.fixed = len;
	return true;
}

static void worker_loop(Ctx& c, bool resumed, int known_fd, int stop_after)
{
	WorkerShm* w = c.w;
	bool more = true;
	if (resumed) more = advance(c);
	else { c.fixed = 0; w->len = 0; w->claimed = 0; w->taskno = 0; }
	while (more && !c.sh->stop) {
		int from = c.fixed ? c.fixed-1 : 0;
		// never prune again a prefix that was passed: the claim is kept in w->claimed
		int r = run_once(c);
		if (r != 2 && !w->claimed) {		// ended above the split depth
			uint8_t z = 0;
			uint32_t t = w->taskno;
			if (t < MAXTASK && !c.sh->claimed[t].compare_exchange_strong(z, 1)) r = 2;
			else w->claimed = 1;
		}
		w->beat++;
		if (r == 2) {
			w->pruned++;
			if (c.muted) w->len = c.pos;
		} else {
			w->executions++;
			w->transitions += c.pos - from;
			if (!c.custom_cases) w->cases++;
			if (c.pos > w->maxdepth) w->maxdepth = c.pos;
			if (c.pos <= RINGD) {
				int k = w->ring_n % RING;
				for (int i = 0; i < c.pos; i++) w->ring[k][i] = w->choice[i];
				w->ring_len[k] = c.pos; w->ring_n++;
				uint64_t x = w->executions;
				if (x == 3 || x == 1000 || x == 40000 || (x & 0xFFFFF) == 0) {
					int s = w->nsample++ % 4;
					for (int i = 0; i < c.pos; i++) w->sample[s][i] = w->choice[i];
					w->sample_len[s] = c.pos;
				}
			}
		}
		if (r == 1) {
			if (c.fail_msg.empty()) {
				for (auto& k : c.known_hit) { std::string l = k + "\n"; if (write(known_fd, l.data(), l.size()) < 0) {} }
				c.known_hit.clear();
			} else {
				push_failure(c, c.fail_key.c_str(), c.fail_msg.c_str(), (int)(w - c.sh->w));
				if (c.sh->nfail >= stop_after) c.sh->stop = 1;
			}
		}
		more = advance(c);
	}
	w->done = 1;
}

static std::string jesc(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char ch : s) {
		char b[8];
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o + "\"";
}

struct ReplayResult { bool failed, timeout, crashed, diverged; std::string msg, trace, key; };

// Run one path (after the given history of paths) in a fresh process
static ReplayResult replay(Ctx& c, const std::vector<std::vector<uint32_t>>& paths, double limit)
{
	ReplayResult rr{false, false, false, false, "", "", ""};
	char* buf = (char*)mmap(0, 1<<20, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	char errname[] = "/tmp/mc-replay-XXXXXX";
	int efd = mkstemp(errname);
	WorkerShm* w = &c.sh->w[MAXW-1];
	memset((void*)w->key, 0, sizeof w->key);
	fflush(0);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		dup2(efd, 2); dup2(efd, 1);
		c.w = w; c.replaying = true; c.tracing = false;
		int r = 0;
		for (size_t i = 0; i < paths.size(); i++) {
			bool last = i+1 == paths.size();
			for (size_t k = 0; k < paths[i].size(); k++) { w->choice[k] = paths[i][k]; w->width[k] = 0; }
			w->len = 0;
			c.fixed = paths[i].size();
			w->claimed = 1;
			c.tracing = last;
			r = run_once(c);
			if (last) snprintf(buf, 1<<20, "%d\n%s\x01%s\x01%s", r, c.fail_key.c_str(), c.fail_msg.c_str(), c.trace.c_str());
		}
		_exit(r == 1 ? 77 : 0);
	}
	double t0 = now(); int st = 0;
	for (;;) {
		pid_t p = waitpid(pid, &st, WNOHANG);
		if (p == pid) break;
		if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); rr.timeout = true; break; }
		usleep(1000);
	}
	std::string err;
	{
		char tmp[20000]; off_t size = lseek(efd, 0, SEEK_END);
		lseek(efd, size > 0 ? 0 : 0, SEEK_SET);
		ssize_t n = read(efd, tmp, sizeof tmp - 1);
		if (n > 0) err.assign(tmp, n);
	}
	close(efd); unlink(errname);
	rr.key = w->key;
	if (rr.timeout) { rr.failed = true; rr.msg = "does not terminate"; }
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
		std::string all = buf;
		rr.failed = true;
		size_t nl = all.find('\n'), a = all.find('\x01'), b = all.find('\x01', a+1);
		rr.key = all.substr(nl+1, a-nl-1);
		rr.msg = all.substr(a+1, b-a-1);
		rr.trace = all.substr(b+1);
		if (rr.msg.empty()) rr.msg = "(known)";
	} else if (WIFEXITED(st) && WEXITSTATUS(st) == 9) {
		rr.diverged = true; rr.msg = err;
	} else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
		rr.failed = rr.crashed = true;
		std::string line;
		size_t p = err.find("ERROR: ");
		if (p == std::string::npos) p = err.find("Assertion");
		if (p != std::string::npos) { while (p > 0 && err[p-1] != '\n') p--; }
		else p = 0;
		line = err.substr(p, 1500);
		char b[80];
		if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d: ", WTERMSIG(st));
		else snprintf(b, sizeof b, "exit %d: ", WEXITSTATUS(st));
		rr.msg = b + line;
	} else {
		std::string all = buf; size_t b = all.find('\x01'); b = all.find('\x01', b+1);
		if (b != std::string::npos) rr.trace = all.substr(b+1);
	}
	munmap(buf, 1<<20);
	return rr;
}

static void usage() { fprintf(stderr, "usage: harness --config NAME [--p name=value] [--workers N] [--time S] [--out F] [--known F] [--replay c,c,c/c,c] [--list]\n"); exit(3); }

int mc_main(int argc, char** argv)
{
	std::string cname, out, knownf, rep; bool do_rep = false, verbose = false;
	int workers = 8; double limit = 1e9; int stop_after = 3; int bits = 25;
	Ctx c;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nxt = [&]() -> const char* { if (i+1 >= argc) usage(); return argv[++i]; };
		if (a == "--config") cname = nxt();
		else if (a == "--p") { std::string s = nxt(); size_t e = s.find('='); c.params[s.substr(0, e)] = atol(s.c_str()+e+1); }
		else if (a == "--workers") workers = atoi(nxt());
		else if (a == "--time") limit = atof(nxt());
		else if (a == "--out") out = nxt();
		else if (a == "--known") knownf = nxt();
		else if (a == "--replay") { rep = nxt(); do_rep = true; }
		else if (a == "--stop-after") stop_after = atoi(nxt());
		else if (a == "--bits") bits = atoi(nxt());
		else if (a == "-v") verbose = true;
		else if (a == "--list") { for (auto& k : configs()) puts(k.name.c_str()); return 0; }
		else usage();
	}
	Config* cfg = 0;
	for (auto& k : configs()) if (k.name == cname) cfg = &k;
	if (!cfg) { fprintf(stderr, "no configuration '%s'\n", cname.c_str()); return 3; }
	c.cfg = cfg;
	if (!knownf.empty()) {
		FILE* f = fopen(knownf.c_str(), "r"); char b[2048];
		while (f && fgets(b, sizeof b, f)) { size_t n = strlen(b); while (n && b[n-1] == '\n') b[--n] = 0; if (n) c.known.insert(b); }
		if (f) fclose(f);
	}
	if (workers > MAXW-1) workers = MAXW-1;
	Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED) { perror("mmap"); return 3; }
	HashSet hs, ho; hs.init(bits); ho.init(20);
	c.sh = sh; c.states = &hs; c.outcomes = &ho;
#ifdef MC_ASAN
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
	if (do_rep) {
		std::vector<std::vector<uint32_t>> paths(1);
		for (const char* p = rep.c_str(); *p; ) {
			if (*p == '/') { paths.push_back({}); p++; }
			else if (*p == ',') p++;
			else paths.back().push_back(strtoul(p, (char**)&p, 10));
		}
		ReplayResult r = replay(c, paths, 120);
		printf("%s%s\n%s%s\n", r.trace.c_str(), r.trace.empty() || r.trace.back() == '\n' ? "" : "\n",
			r.failed ? "FAILED: " : r.diverged ? "DIVERGED: " : "ok", r.msg.c_str());
		return r.failed ? 1 : r.diverged ? 2 : 0;
	}
	char kname[] = "/tmp/mc-known-XXXXXX";
	int known_fd = mkstemp(kname); unlink(kname);
	fcntl(known_fd, F_SETFL, O_APPEND);
	int devnull = open("/dev/null", O_RDWR);

	double t0 = now();
	std::vector<pid_t> pid(workers, 0);
	std::vector<uint64_t> beat(workers, 0);
	std::vector<double> when(workers, t0);
	struct Crash { std::vector<uint32_t> path; std::vector<std::vector<uint32_t>> hist; std::string key; bool hang; };
	struct Viol { std::string paths, msg, trace, key; };
	std::vector<Viol> viols; std::vector<std::string> unrepro; std::set<std::string> known_hits;
	bool capped = false; int broken = 0; int crashes = 0;
	auto spawn = [&](int i, bool resumed) {
		fflush(0);
		pid_t p = fork();
		if (p == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			if (!verbose) { dup2(devnull, 2); dup2(devnull, 1); }
			c.w = &sh->w[i];
			worker_loop(c, resumed, known_fd, stop_after);
			_exit(0);
		}
		pid[i] = p; when[i] = now();
	};
	auto hist_of = [&](WorkerShm* w) {
		std::vector<std::vector<uint32_t>> h;
		int n = std::min(w->ring_n, RING);
		for (int k = w->ring_n - n; k < w->ring_n; k++)
			h.push_back(std::vector<uint32_t>(w->ring[k%RING], w->ring[k%RING] + w->ring_len[k%RING]));
		return h;
	};
	auto join = [](const std::vector<std::vector<uint32_t>>& ps) {
		std::string s;
		for (size_t i = 0; i < ps.size(); i++) { if (i) s += "/"; for (size_t k = 0; k < ps[i].size(); k++) s += (k ? "," : "") + std::to_string(ps[i][k]); }
		return s;
	};
	// Replay a failing path, alone and if need be after the executions that went before it
	auto confirm = [&](const std::vector<uint32_t>& path, const std::vector<std::vector<uint32_t>>& hist, double lim) {
		std::vector<std::vector<uint32_t>> ps{path};
		ReplayResult r = replay(c, ps, lim);
		if (!r.failed && !hist.empty()) {
			ps = hist; if (ps.back() != path) ps.push_back(path);
			ReplayResult r2 = replay(c, ps, lim);
			if (r2.failed) { r = r2; r.msg += " (only after the executions before it)"; }
		}
		if (!r.failed) { unrepro.push_back(join(ps) + ": " + r.msg); return false; }
		if (!r.key.empty() && c.known.count(r.key)) { known_hits.insert(r.key); return false; }
		viols.push_back(Viol{join(ps), r.msg, r.trace, r.key});
		return true;
	};
	for (int i = 0; i < workers; i++) spawn(i, false);
	int alive = workers;
	int confirmed_upto = 0;
	while (alive > 0) {
		usleep(2000);
		for (int i = 0; i < workers; i++) {
			if (!pid[i]) continue;
			int st; WorkerShm* w = &sh->w[i];
			bool hang = false;
			pid_t p = waitpid(pid[i], &st, WNOHANG);
			if (p == 0) {
				uint64_t b = w->beat;
				if (b != beat[i]) { beat[i] = b; when[i] = now(); continue; }
				else if (now() - when[i] > cfg->hang_s) {
					kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); hang = true;
				} else continue;
			}
			pid[i] = 0;
			if (w->done && !hang) { alive--; continue; }
			if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 9)) {
				fprintf(stderr, "worker %d gave up: exit %d (harness error)\n", i, WEXITSTATUS(st));
				broken++; alive--; sh->stop = 1; continue;
			}
			if (verbose) fprintf(stderr, "worker %d died: p %d errno %s status %x hang %d after %.3f\n", i, (int)p, strerror(errno), st, hang, now() - when[i]);
			crashes++;
			std::vector<uint32_t> path; for (int k = 0; k < w->len; k++) path.push_back((uint32_t)w->choice[k]);
			bool ok = confirm(path, hist_of(w), hang ? 90 : 60);
			if (ok && (int)viols.size() >= stop_after) sh->stop = 1;
			if (crashes > 400) { fprintf(stderr, "too many crashes, giving up\n"); capped = true; sh->stop = 1; }
			w->executions++; w->cases++;
			if (sh->stop) { alive--; continue; }
			if (!ok && hang) {	// it was only slow: run on after it
			}
			spawn(i, true);
		}
		if (now() - t0 > limit && !sh->stop) { capped = true; sh->stop = 1; }
	}
	int nf = std::min((int)sh->nfail, MAXFAIL);
	for (; confirmed_upto < nf && (int)viols.size() < stop_after + 4; confirmed_upto++) {
		Failure& f = sh->fails[confirmed_upto];
		std::vector<uint32_t> path(f.choice, f.choice + f.len);
		std::vector<std::vector<uint32_t>> h;
		if (!confirm(path, h, 60) && !unrepro.empty()) unrepro.back() += std::string(" [") + f.msg + "]";
	}
	// Violations that only show after earlier executions of the same worker
	if (viols.empty() && nf > 0 && !unrepro.empty()) {
		for (int i = 0; i < nf && viols.empty(); i++) {
			Failure& f = sh->fails[i];
			auto h = hist_of(&sh->w[f.worker]);
			std::vector<uint32_t> path(f.choice, f.choice + f.len);
			confirm(path, h, 60);
		}
	}
	lseek(known_fd, 0, SEEK_SET);
	{ FILE* f = fdopen(known_fd, "r"); char b[2048]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; known_hits.insert(b); } }

	uint64_t ex = 0, tr = 0, cs = 0, pr = 0; int md = 0; uint64_t extra[16] = {0};
	std::vector<std::vector<uint32_t>> samples;
	for (int i = 0; i < workers; i++) {
		WorkerShm* w = &sh->w[i];
		ex += w->executions; tr += w->transitions; cs += w->cases; pr += w->pruned; md = std::max(md, (int)w->maxdepth);
		for (int k = 0; k < 16; k++) extra[k] += w->extra[k];
		for (int k = 0; k < std::min(w->nsample, 4); k++)
			samples.push_back(std::vector<uint32_t>(w->sample[k], w->sample[k] + w->sample_len[k]));
	}
	std::string js = "{\"config\":" + jesc(cname) + ",\"params\":{";
	{ bool first = true; for (auto& p : c.params) { js += (first ? "" : ",") + jesc(p.first) + ":" + std::to_string(p.second); first = false; } }
	char b[400];
	snprintf(b, sizeof b, "},\"executions\":%llu,\"transitions\":%llu,\"cases\":%llu,\"states\":%llu,\"states_full\":%s,\"outcomes\":%llu,\"max_depth\":%d,\"complete\":%s,\"broken\":%d,\"crashes\":%d,\"wall\":%.2f",
		(unsigned long long)ex, (unsigned long long)tr, (unsigned long long)cs, (unsigned long long)sh->nstates.load(),
		sh->states_full ? "true" : "false", (unsigned long long)sh->noutcomes.load(), md,
		!capped && !broken && !sh->stop ? "true" : "false", broken, crashes, now() - t0);
	js += b;
	js += ",\"extra\":{";
	for (size_t k = 0; k < extra_names.size() && k < 16; k++) { js += (k ? "," : "") + jesc(extra_names[k]) + ":" + std::to_string(extra[k]); }
	js += "},\"samples\":[";
	{
		size_t n = 0;
		for (size_t k = 0; k < samples.size() && n < 3; k += (samples.size() + 2) / 3, n++) {
			ReplayResult r = replay(c, {samples[k]}, 30);
			js += (n ? "," : "") + std::string("{\"choices\":\"") + join({samples[k]}) + "\",\"trace\":" + jesc(r.trace.substr(0, 600)) + "}";
		}
	}
	js += "],\"violations\":[";
	for (size_t k = 0; k < viols.size(); k++)
		js += (k ? "," : "") + std::string("{\"choices\":\"") + viols[k].paths + "\",\"key\":" + jesc(viols[k].key) + ",\"msg\":" + jesc(viols[k].msg) + ",\"trace\":" + jesc(viols[k].trace) + "}";
	js += "],\"unreproduced\":[";
	for (size_t k = 0; k < unrepro.size() && k < 10; k++) js += (k ? "," : "") + jesc(unrepro[k].substr(0, 2000));
	js += "],\"known\":[";
	{ bool first = true; for (auto& k : known_hits) { js += (first ? "" : ",") + jesc(k); first = false; } }
	js += "]}\n";
	if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 3; } fputs(js.c_str(), f); fclose(f); }
	printf("%s: %llu executions, %llu transitions, %llu cases, %llu states, %llu outcomes, depth %d, %s, %.1fs, %zu violations, %zu unreproduced, %d crashes\n",
		cname.c_str(), (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)cs, (unsigned long long)sh->nstates.load(),
		(unsigned long long)sh->noutcomes.load(), md, capped ? "capped" : sh->stop ? "stopped" : "complete", now() - t0, viols.size(), unrepro.size(), crashes);
	for (auto& v : viols) printf("  FAIL [%s] %s\n%s\n    replay: --config %s --replay %s\n", v.key.c_str(), v.msg.c_str(), v.trace.c_str(), cname.c_str(), v.paths.c_str());
	for (auto& u : unrepro) printf("  UNREPRODUCED %s\n", u.c_str());
	return broken ? 3 : viols.empty() ? 0 : 1;
}
#endif // MC_MAIN

} // namespace mc
#if defined(MC_MAIN)
int main(int argc, char** argv) { return mc::mc_main(argc, argv); }
#endif
#endif
