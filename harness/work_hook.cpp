/*
 * Counts the work that is done while `work_on`: basic blocks entered (the code under test is compiled with
 * -fsanitize-coverage=trace-pc), bytes handled by memcpy and the like, and what is allocated.
 */
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
bool work_on;
uint64_t work_steps, work_limit = ~0ull;
long work_allocs, work_live, work_peak;
char* work_base; long work_stack;	// the deepest stack, from the measurement's own frame
static inline void step(uint64_t n) { if (work_on && (work_steps += n) > work_limit) { fprintf(stderr, "the work exceeds every bound\n"); abort(); } }
extern "C" void __sanitizer_cov_trace_pc() { step(1); if (work_on) { long d = work_base-(char*)__builtin_frame_address(0); if (d > work_stack) work_stack = d; } }

static void* get(size_t n)
{
	size_t* p = (size_t*)malloc(n+16);
	if (!p) abort();
	p[0] = n; p[1] = work_on;
	if (work_on) { work_allocs++; work_live += n; if (work_live > work_peak) work_peak = work_live; step(20); }
	return p+2;
}
static void put(void* q) { if (!q) return; size_t* p = (size_t*)q-2; if (p[1]) work_live -= p[0]; free(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

extern "C" {
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { step(1+n/8); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { step(1+n/8); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { step(1+n/8); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { step(1+n/8); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); step(1+n/8); return n; }
static void counted(size_t n) { if (work_on) { work_allocs++; step(20); } }
void* __wrap_malloc(size_t n) { counted(n); return __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { counted(n*m); return __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { counted(n); return __real_realloc(p, n); }
}
