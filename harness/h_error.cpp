/*
 * C17: every error number of every message set; every sequence of operations on error objects.
 */
#define MC_MAIN
#include "mc.h"
#include <climits>
#include <cassert>
#include <error.h>

using mc::Ctx;

// All numbers of one set. In order of set and message the numbers must strictly increase, so all differ
static void numbers(Ctx& c)
{
	int hi = c.choose(256), lo = c.choose(256), set = hi<<8|lo;
	c.setkey("set %d", set); c.note("set %d\n", set);
	int32_t prev = INT_MIN;
	if (set) prev = ErrNum(set-1, 0x3FFF);
	for (int msg = 0; msg < 0x4000; msg++) {
		const ErrNum e(set, msg); int32_t n = e;
		if (n >= 0) c.fail("set %d message %d gives %d", set, msg, n);
		if (e.set() != set || e.msg() != msg) c.fail("set %d message %d gives set %d message %d", set, msg, e.set(), e.msg());
		if (n <= prev && (set || msg)) c.fail("set %d message %d gives %d, no more than the one before it, %d", set, msg, n, prev);
		prev = n;
		const ErrNum r(n);
		if ((int32_t)r != n || !(r == e) || r != e || r.set() != set || r.msg() != msg || !(r == n)) c.fail("set %d message %d rebuilt from %d is %d", set, msg, n, (int32_t)r);
		ErrNum a, k(e); a = r;
		if ((int32_t)a != n || (int32_t)k != n) c.fail("set %d message %d copied", set, msg);
		if (!e || e == ErrNum() || !(e != ErrNum()) || !(e < 0) || e > 0) c.fail("set %d message %d compared with no error", set, msg);
	}
	ErrNum none; if (none || (int32_t)none != 0 || !(none == ErrNum(0))) c.fail("no error is not zero");
	c.cases(0x4000); c.state(set);
}
MC_CONFIG(numbers, "error_numbers", numbers, 1, false, false);

static void objects(Ctx& c)
{
	static const int32_t NUM[] = { 0, (int32_t)0xC0000001, (int32_t)0xFFFFFFFF, 5 };
	static const char* const TEXT[] = { "text", 0, "other" };
	static int P[2];
	struct M { int32_t n; const char* d; const void* p; } m[3] = {};
	Error e[3];
	for (int d = 0; d < (int)c.param("depth", 4); d++) {
		int i = c.choose(3);
		switch (c.choose(4)) {
		case 0: { int n = c.choose(4), t = c.choose(3); c.note("error %d new %d\n", i, NUM[n]);
			if (t == 0) e[i] = Error(NUM[n]); else e[i] = Error(NUM[n], TEXT[t-1], &P[t-1]);
			m[i].n = ErrNum(NUM[n]); m[i].d = t ? TEXT[t-1] : 0; m[i].p = t ? &P[t-1] : 0; break; }
		case 1: { int j = c.choose(3); c.note("error %d = error %d\n", i, j); e[i] = e[j]; m[i] = m[j]; break; }
		case 2: { int j = c.choose(3); c.note("error %d = copy of copy of error %d\n", i, j); Error a(e[j]), b(a); a = Error(7); e[i] = b; m[i] = m[j]; break; }
		case 3: c.note("error %d = no error\n", i); e[i] = Error(); m[i] = M{0, 0, 0}; break;
		}
		for (int k = 0; k < 3; k++) {
			const Error& x = e[k];
			if ((int32_t)x != m[k].n || (int32_t)x.operator ErrNum() != m[k].n || x.default_text() != m[k].d || x.parameters() != m[k].p)
				c.fail("error %d is %d %s, expected %d %s", k, (int32_t)x, x.default_text(), m[k].n, m[k].d);
		}
	}
	uint64_t h = 0; for (int k = 0; k < 3; k++) h = mc::mix(h, mc::mix((uint32_t)m[k].n, (m[k].d ? m[k].d[0] : 0) + (m[k].p == P ? 512 : m[k].p ? 1024 : 0)));
	c.state(h);
}
MC_CONFIG(objects, "error_objects", objects, 3);
