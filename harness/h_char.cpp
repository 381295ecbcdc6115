// C01-C05: character encodings, character properties and guarded text pointers
#define MC_MAIN
#include "mc.h"
#include <char_encoding.h>
#include <char_ptr.h>
#include <utf8_ptr.h>
using mc::Ctx;
#include "ref_utf8.h"


/*--- C01 ---*/
static void codepoints(Ctx& c)
{
	static const u8 followers[] = {0x80, 0x00, 0xBF, 0x41, 0xC3, 0xFF};
	uint32_t hi = c.choose(65536);
	int nf = hi < 0x20 ? 6 : c.param("followers", 6);
	for (uint32_t lo = 0; lo < 65536; lo++) {
		uint32_t ch = hi << 16 | lo;
		u8 want[8], got[16];
		memset(got, 0xEE, sizeof got);
		int n = ref_encode(ch, want);
		UTF8* p = (UTF8*)got + 4;
		UTF8Put(p, (UCS4)ch);
		int put = p - ((UTF8*)got + 4);
		if (put != n || memcmp(got+4, want, n) || got[3] != 0xEE || got[4+n] != 0xEE) {
			c.setkey("U+%08X", ch);
			c.fail("U+%08X is encoded as %s, expected %s", ch, hex(got+4, put > 0 && put < 10 ? put : 0).c_str(), hex(want, n).c_str());
		}
		if (UTF8Len((UCS4)ch) != n) { c.setkey("U+%08X", ch); c.fail("U+%08X: length announced %d, encoded length %d", ch, UTF8Len((UCS4)ch), n); }
		if (UCS4IsIllegal((UCS4)ch) != ref_illegal(ch)) c.fail("U+%08X: illegal marker test says %d", ch, UCS4IsIllegal((UCS4)ch));
		if (ref_illegal(ch)) continue;
		if (UTF8CorrectLen((UTF8)got[4]) != n || !UTF8Is1st((UTF8)got[4]) || UTF8Is2nd((UTF8)got[4]))
			c.fail("U+%08X: first byte %02X not announced as start of %d bytes", ch, got[4], n);
		for (int i = 1; i < n; i++)
			if (UTF8Is1st((UTF8)got[4+i]) || !UTF8Is2nd((UTF8)got[4+i])) c.fail("U+%08X: byte %d not a continuation", ch, i);
		if (UTF8Len((const UTF8*)got+4) != n) c.fail("U+%08X: length of the encoded text %d, not %d", ch, UTF8Len((const UTF8*)got+4), n);
		for (int f = 0; f < nf; f++) {
			got[4+n] = followers[f];
			const UTF8* q = (const UTF8*)got+4;
			UCS4 back = UTF8Get(q);
			if (back != (UCS4)ch || q != (const UTF8*)got+4+n) {
				c.setkey("U+%08X followed by %02X", ch, followers[f]);
				c.fail("U+%08X followed by %02X decodes as U+%08X over %d bytes", ch, followers[f], (unsigned)back, (int)(q-(const UTF8*)got-4));
			}
		}
	}
	c.cases(65536);
	c.state(hi + 1);
	c.outcome(mc::mix(1, UTF8Len((UCS4)(hi << 16))));
	c.note("U+%04X0000..U+%04XFFFF: encoded, measured, decoded before %d different bytes", hi, hi, nf);
}
MC_CONFIG(cp, "codepoints", codepoints, 1);

static void padded(Ctx& c)
{
	int n = c.choose(7), f = c.choose(256);
	u8 b[12]; memset(b, 0xEE, sizeof b);
	UTF8* p = (UTF8*)b;
	UTF8PutPaddedZero(p, n);
	int want = n < 1 ? 1 : n;
	if (p != (UTF8*)b + want) c.fail("padded zero of %d bytes stored %d", n, (int)(p-(UTF8*)b));
	if (b[want] != 0xEE) c.fail("padded zero of %d bytes wrote too far", n);
	b[want] = f;
	const UTF8* q = (UTF8*)b;
	if (UTF8Get(q) != 0 || q != (UTF8*)b + want) c.fail("padded zero of %d bytes followed by %02X does not decode to zero over %d bytes", n, f, want);
	c.state(n << 8 | f);
	c.note("padded zero of %d bytes followed by %02X\n", n, f);
}
MC_CONFIG(pz, "padded_zero", padded, 1);

/*--- C02 ---*/
static const u8 ALPHA[] = {0x41, 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF9, 0xFC, 0xFF, 0xC0, 0xDF, 0xE0, 0xEF, 0xF7, 0xF8, 0xFB, 0xFE, 0x7F, 0x01, 0x8F};
struct Exact {	// n bytes at the very end of a heap block, so that the sanitizer sees one byte too far on either side
	u8* p;
	Exact(const u8* s, size_t n) { p = (u8*)malloc(n ? n : 1); memcpy(p, s, n); }
	~Exact() { free(p); }
};
static void check_text(Ctx& c, const u8* s, int n, bool padded)
{
	std::string h = hex(s, n);
	c.setkey("bytes %s", h.c_str());
	c.note("bytes %s", h.c_str());
	u8 z[40]; memcpy(z, s, n); z[n] = 0;
	Exact e(z, n+1);
	const UTF8* start = (const UTF8*)e.p;
	int	pos[40], np = 0;
	uint32_t val[40];
	for (int i = 0; i < n; ) { pos[np] = i; i += ref_decode(s+i, n-i, val[np]); np++; }
	pos[np] = n;
	const UTF8* q = start;
	for (int i = 0; i < np; i++) {
		if (q != start + pos[i]) c.fail("%s: character %d should start at byte %d, not %d", h.c_str(), i, pos[i], (int)(q-start));
		const UTF8* t = q;
		UCS4 pk = UTF8Peek(t);
		if (t != q) c.fail("%s: peeking at byte %d moved", h.c_str(), pos[i]);
		int l = UTF8Len(q);
		UCS4 g = UTF8Get(q);
		if ((uint32_t)g != val[i] || pk != g) c.fail("%s: byte %d decodes as U+%08X (peek U+%08X), expected U+%08X", h.c_str(), pos[i], (unsigned)g, (unsigned)pk, val[i]);
		if (q != start + pos[i+1]) c.fail("%s: character at %d takes %d bytes, expected %d", h.c_str(), pos[i], (int)(q-start-pos[i]), pos[i+1]-pos[i]);
		if (l != pos[i+1]-pos[i]) c.fail("%s: length at %d announced as %d, decoding takes %d", h.c_str(), pos[i], l, pos[i+1]-pos[i]);
	}
	// Backwards, from every position to every limit before it
	for (int i = 0; i <= np; i++)
		for (int j = 0; j <= i; j++) {
			const UTF8* r = UTF8Backup(start+pos[i], start+pos[j]);
			const UTF8* want = j == i ? 0 : start+pos[i-1];
			if (r != want) c.fail("%s: backing up from %d with limit %d gives %d, expected %d", h.c_str(), pos[i], pos[j],
				r ? (int)(r-start) : -1, want ? pos[i-1] : -1);
		}
	// From inside a complete character; and limits in the middle are not passed either
	for (int i = 0; i < np; i++)
		for (int k = pos[i]+1; k < pos[i+1]; k++) {
			const UTF8* r = UTF8Backup(start+k, start);
			if (r != start+pos[i]) c.fail("%s: backing up from %d inside a character gives %d, expected %d", h.c_str(), k, r ? (int)(r-start) : -1, pos[i]);
			const UTF8* r2 = UTF8Backup(start+pos[i+1], start+k);
			if (r2 && (r2 < start+k || r2 >= start+pos[i+1])) c.fail("%s: backing up from %d to limit %d gives %d", h.c_str(), pos[i+1], k, (int)(r2-start));
		}
	if (padded) {	// No limit given: up to six bytes before may be looked at
		u8 w[60]; memset(w, 'x', 6); memcpy(w+6, z, n+1);
		Exact ew(w, n+7);
		const UTF8* st = (const UTF8*)ew.p + 6;
		for (int i = 1; i <= np; i++)
			if (UTF8Backup(st+pos[i]) != st+pos[i-1]) c.fail("%s: backing up from %d without a limit gives %d, expected %d", h.c_str(), pos[i], (int)(UTF8Backup(st+pos[i])-st), pos[i-1]);
		if (UTF8Backup(st) != st-1) c.fail("%s: backing up over ASCII failed", h.c_str());
	}
	uint64_t hh = n;
	for (int i = 0; i < np; i++) hh = mc::mix(hh, pos[i+1]-pos[i]);
	c.outcome(hh);		// distinct segmentations
	c.state(mc::mix(mc::hstr(h), n));
	c.note("-> %d characters\n", np);
}
static void text_alpha(Ctx& c)
{
	u8 s[16]; int k = c.param("alphabet", 12), max = c.param("len", 4);
	int n = c.choose(max+1);
	for (int i = 0; i < n; i++) s[i] = ALPHA[c.choose(k)];
	check_text(c, s, n, true);
}
MC_CONFIG(ta, "text", text_alpha, 3);
static void text_bytes(Ctx& c)		// every byte value
{
	u8 s[16]; int max = c.param("len", 2);
	int n = 1 + c.choose(max);
	for (int i = 0; i < n; i++) s[i] = 1 + c.choose(255);
	check_text(c, s, n, true);
}
MC_CONFIG(tb, "text_all_bytes", text_bytes, 2);
static void text_long(Ctx& c)		// runs longer than any character
{
	static const u8 A[] = {0x80, 0xFC, 0xF0, 0x41, 0xC3};
	u8 s[16]; int k = c.param("alphabet", 4), n = c.param("len", 9);
	for (int i = 0; i < n; i++) s[i] = A[c.choose(k)];
	check_text(c, s, n, true);
}
MC_CONFIG(tl, "text_long", text_long, 3);

/*--- C03 ---*/
static uint16_t bswap(uint16_t x) { return x >> 8 | x << 8; }
static void utf16(Ctx& c)
{
	uint32_t hi = c.choose(0x110000 >> 8); bool swap = c.choose(2);
	static const uint16_t follow[] = {0, 0x41, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x00D8, 0x00DC};
	for (uint32_t lo = 0; lo < 256; lo++) {
		uint32_t ch = hi << 8 | lo;
		if (ch >= 0xD800 && ch < 0xE000) continue;
		c.setkey("U+%06X %s", ch, swap ? "swapped" : "native");
		uint16_t want[2]; int n = 1;
		if (ch < 0x10000) want[0] = ch;
		else { n = 2; want[0] = 0xD800 | (ch - 0x10000) >> 10; want[1] = 0xDC00 | ((ch - 0x10000) & 0x3FF); }
		if (swap) { want[0] = bswap(want[0]); want[1] = bswap(want[1]); }
		UTF16 b[5] = {0xEEEE, 0xEEEE, 0xEEEE, 0xEEEE, 0xEEEE};
		UTF16* p = b+1;
		UTF16Put(p, (UCS4)ch, swap);
		if (p != b+1+n || b[0] != 0xEEEE || b[1+n] != 0xEEEE) c.fail("U+%06X stored in %d units, expected %d", ch, (int)(p-b-1), n);
		if (memcmp(b+1, want, n*2)) c.fail("U+%06X stored as %04X %04X, expected %04X %04X", ch, b[1], b[2], want[0], n > 1 ? want[1] : b[2]);
		if (UTF16Len((UCS4)ch) != n) c.fail("U+%06X announced as %d units", ch, UTF16Len((UCS4)ch));
		if (UTF16Len((const UTF16*)b+1, swap) != n) c.fail("U+%06X: %d units announced from the first", ch, UTF16Len((const UTF16*)b+1, swap));
		if (UCS4IsUTF16((UCS4)ch) != (n == 1)) c.fail("U+%06X: single unit test wrong", ch);
		for (uint16_t f : follow) {
			b[1+n] = f;
			const UTF16* q = b+1;
			UCS4 g = UTF16Get(q, swap);
			if ((uint32_t)g != ch || q != b+1+n) c.fail("U+%06X followed by %04X reads back as U+%06X over %d units", ch, f, (unsigned)g, (int)(q-b-1));
		}
		if (n == 2) {
			UTF16 h = swap ? bswap(b[1]) : b[1], l = swap ? bswap(b[2]) : b[2];
			if (UCS4HighSurrogate((UCS4)ch) != h || UCS4LowSurrogate((UCS4)ch) != l || !UTF16Is1st(h) || !UTF16Is2nd(l)) c.fail("U+%06X: surrogates wrong", ch);
		}
	}
	c.cases(256);
	c.state(hi << 1 | swap);
	c.note("U+%04X00..FF %s byte order\n", hi, swap ? "swapped" : "native");
}
MC_CONFIG(u16, "utf16", utf16, 1);
static void units(Ctx& c)
{
	uint32_t u = c.choose(65536);
	c.setkey("unit %04X", u);
	if (UTF16Swab(u) != bswap(u)) c.fail("unit %04X swapped gives %04X", u, UTF16Swab(u));
	if (UTF16Swab(UTF16Swab(u)) != u) c.fail("unit %04X swapped twice gives %04X", u, UTF16Swab(UTF16Swab(u)));
	bool s1 = u >= 0xD800 && u < 0xDC00, s2 = u >= 0xDC00 && u < 0xE000;
	if (UTF16IsSurrogate(u) != (s1||s2) || UTF16Is1st(u) != s1 || UTF16Is2nd(u) != s2) c.fail("unit %04X classified wrongly", u);
	if (UTF16Len((const UTF16*)(UTF16[]){(UTF16)u}) != (s1 ? 2 : 1)) c.fail("unit %04X: length", u);
	c.state(u+1);
	c.note("unit %04X\n", u);
}
MC_CONFIG(u16u, "utf16_units", units, 1);

/*--- C04 ---*/
struct CaseRow { uint32_t ch, upper, lower, title; int alpha, digit; };
static const CaseRow case_rows[] = {
#include "case_ref.inc"
};
static const int CASE_N = sizeof(case_rows)/sizeof(case_rows[0]);
struct CaseRef {
	std::vector<CaseRow> t;
	std::vector<uint32_t> reps;	// representatives: any character with a property, and its neighbours
	CaseRef() : t(0x11000) {
		for (uint32_t i = 0; i < t.size(); i++) t[i] = CaseRow{i, i, i, i, 0, -1};
		for (const CaseRow& r : case_rows) t[r.ch] = r;
		std::set<uint32_t> s;
		for (const CaseRow& r : case_rows) { s.insert(r.ch); s.insert(r.ch+1); if (r.ch) s.insert(r.ch-1); }
		for (uint32_t x : {0u, 0x7Fu, 0xFFFFu, 0x10000u, 0x10FFFFu, 0x80000041u, 0xFFFFFFFFu}) s.insert(x);
		reps.assign(s.begin(), s.end());
	}
	CaseRow get(uint32_t c) const { return c < t.size() ? t[c] : CaseRow{c, c, c, c, 0, -1}; }
};
static const CaseRef& cref() { static CaseRef r; return r; }
static void query(Ctx& c, int f, uint32_t ch, const char* after, uint32_t prev)
{
	CaseRow r = cref().get(ch);
	int64_t got, want;
	const char* name;
	switch (f) {
	case 0: name = "digit"; got = UCS4Digit((UCS4)ch); want = r.digit; break;
	case 1: name = "upper"; got = (uint32_t)UCS4ToUpper((UCS4)ch); want = r.upper; break;
	case 2: name = "lower"; got = (uint32_t)UCS4ToLower((UCS4)ch); want = r.lower; break;
	case 3: name = "title"; got = (uint32_t)UCS4ToTitle((UCS4)ch); want = r.title; break;
	case 4: name = "alphabetic"; got = UCS4IsAlphabetic((UCS4)ch); want = r.alpha; break;
	case 5: name = "hex digit"; got = UCS4HexDigit((UCS4)ch);
		want = r.digit >= 0 ? r.digit : ch >= 'A' && ch <= 'F' ? (int)ch-'A'+10 : ch >= 'a' && ch <= 'f' ? (int)ch-'a'+10 : -1; break;
	default: name = "is decimal"; got = UCS4IsDecimal((UCS4)ch); want = r.digit >= 0; break;
	}
	if (got != want) {
		c.setkey("%s of U+%04X%s", name, ch, after);
		c.fail("%s of U+%04X%s U+%04X is %lld (%llx), expected %lld (%llx)", name, ch, after, prev, (long long)got, (long long)got, (long long)want, (long long)want);
	}
}
// One query, after one earlier query of each kind, for every pair of characters
static void pairs(Ctx& c)
{
	const CaseRef& R = cref();
	int f = c.choose(3);
	uint32_t prev = R.reps[c.choose(R.reps.size())];
	int span = c.param("all", 0);
	uint64_t n = 0;
	auto ask = [&](uint32_t ch) { query(c, f, prev, " first", prev); query(c, f, ch, " after", prev); n++; };
	if (span) for (uint32_t ch = 0; ch < 0x11000; ch++) ask(ch);
	else for (uint32_t ch : R.reps) ask(ch);
	c.cases(n);
	c.state((uint64_t)f << 32 | prev);
	c.note("function %d: U+%04X, then each of %llu characters\n", f, prev, (unsigned long long)n);
}
MC_CONFIG(pairs, "query_pairs", pairs, 2);
// Every character, each function, on a fresh memo and again
static void all_chars(Ctx& c)
{
	int f = c.choose(7); uint32_t hi = c.choose(0x110);
	for (uint32_t lo = 0; lo < 0x1000; lo++) {
		uint32_t ch = hi << 12 | lo;
		query(c, f, ch, " in a scan", 0); query(c, f, ch, " again", 0);
		CaseRow r = cref().get(ch);
		if ((r.upper != ch || r.lower != ch) && !UCS4IsAlphabetic((UCS4)ch)) c.fail("U+%04X has a case conversion but is not alphabetic", ch);
	}
	c.cases(0x1000);
	c.state((uint64_t)f << 32 | hi);
	c.note("function %d over U+%03X000..FFF\n", f, hi);
}
MC_CONFIG(allc, "all_characters", all_chars, 2);
// The tests that are made from those, for every character and beyond
static void classes(Ctx& c)
{
	uint32_t hi = c.choose(0x110 + 8);
	static const uint32_t BEYOND[8] = {0x00110000, 0x7FFFF000, 0x80000000, 0x80001000, 0xFFFFF000, 0x20000000, 0x01FFF000, 0xC0000000};
	uint32_t base = hi < 0x110 ? hi << 12 : BEYOND[hi - 0x110];
	for (uint32_t lo = 0; lo < 0x1000; lo++) {
		uint32_t ch = base | lo; UCS4 u = (UCS4)ch;
		CaseRow r = cref().get(ch);
		bool white = ref_white(ch);
		bool lower = r.upper != ch && r.lower == ch, upper = r.lower != ch && r.upper == ch;
		struct { const char* name; bool got, want; } T[] = {
			{"white", UCS4IsWhite(u), white}, {"isspace", isspace(u), white}, {"isalpha", isalpha(u), r.alpha != 0}, {"isdigit", isdigit(u), r.digit >= 0},
			{"isalnum", isalnum(u), r.alpha || r.digit >= 0}, {"islower", islower(u), lower}, {"isupper", isupper(u), upper},
			{"ASCII", UCS4IsASCII(u), ch < 0x80}, {"printable", UCS4IsASCIIPrintable(u), ch >= ' ' && ch < 0x7F}, {"Latin1", UCS4IsLatin1(u), ch <= 0xFF},
			{"Unicode", UCS4IsUnicode(u), ch <= 0x10FFFF}, {"UTF16", UCS4IsUTF16(u), ch <= 0xFFFF}, {"illegal", UCS4IsIllegal(u), (ch >= 0x80000000u && ch <= 0x800000FFu) || ch == 0xFFFFFFFFu},
			{"toupper", (uint32_t)toupper(u) == r.upper, true}, {"tolower", (uint32_t)tolower(u) == r.lower, true},
			{"ASCIIDigit", ASCIIDigit(u) == (ch >= '0' && ch <= '9' ? (int)ch-'0' : -1), true},
		};
		for (auto& t : T) if (t.got != t.want) { c.setkey("%s of U+%04X", t.name, ch); c.fail("%s of U+%04X is %d", t.name, ch, (int)t.got); }
	}
	c.cases(0x1000); c.state(base);
	c.note("classes of U+%05X000..FFF\n", base >> 12);
}
MC_CONFIG(classes, "all_classes", classes, 1);
// Sequences of mixed queries over a small set that covers first, last and middle memo entries
static void seqs(Ctx& c)
{
	static const uint32_t S[] = {'0', '9', 0x3007, 0x3021, 0xFF19, 'a', 'z', 'A', 0x00FF, 0x0130, 0x01C5, 0x1FFC, 0xFF3A, 0xFF5A, 0x10FFFF, 0xAA, 0x0AE7, 0x1371};
	int k = c.param("chars", 8), d = c.param("depth", 3);
	uint64_t h = 7;
	for (int i = 0; i < d; i++) {
		int f = c.choose(6); uint32_t ch = S[c.choose(k)];
		query(c, f, ch, " in a sequence after", h);
		h = mc::mix(h, (uint64_t)f << 32 | ch); c.state(h);
		c.note("function %d of U+%04X\n", f, ch);
	}
}
MC_CONFIG(seqs, "query_sequences", seqs, 2);

/*--- C05 ---*/
// Ops on a pointer type P; the model is an index into the table of legal positions
struct Move { int kind, k; };
static const int DIST[] = {1, 2, 3, 0, 7, 100, -1, -2, -100};
template<class P> static const char* as_ptr(const P& p) { return (const char*)p; }
template<class P, bool LOW, bool HIGH>	// guarded below/above
static void drive(Ctx& c, const char* tname, const std::vector<int>& pos, const char* text, int origin, int depth, bool chars)
{
	int	last = pos.size()-1;
	P	p(text + pos[origin]);
	int	at = origin;
	int	low = LOW ? origin : 0;
	auto	clamp = [&](long t, bool& legal) -> int {
		legal = true;
		if (t > last) { if (!HIGH) legal = false; return last; }
		if (t < low) { if (!LOW) legal = false; return low; }
		return t;
	};
	c.note("%s at character %d of '%s': ", tname, origin, text);
	for (int d = 0; d <= depth; d++) {
		if (as_ptr(p) != text + pos[at]) c.fail("%s is at byte %ld, expected %d", tname, (long)(as_ptr(p)-text), pos[at]);
		if (p.at_eof() != (at == last)) c.fail("%s: end of text reported %d at position %d of %d", tname, p.at_eof(), at, last);
		c.state(mc::mix(mc::mix(mc::hstr(text), at), origin * 8 + LOW * 2 + HIGH + chars * 4));
		if (d == depth) break;
		int kind = c.choose(8);
		int k = kind < 4 ? 1 : DIST[c.choose(c.param("dist", 9))];
		bool legal; int to;
		switch (kind) {
		case 0: to = clamp(at+1L, legal); if (!legal) c.prune(); { P& r = (P&)++p; if (as_ptr(r) != text+pos[to]) c.fail("++p gives %ld", (long)(as_ptr(r)-text)); } at = to; c.note("++p "); break;
		case 1: to = clamp(at+1L, legal); if (!legal) c.prune(); { const char* r = as_ptr(p++); if (r != text+pos[at]) c.fail("p++ gives %ld", (long)(r-text)); } at = to; c.note("p++ "); break;
		case 2: to = clamp(at-1L, legal); if (!legal) c.prune(); { P& r = (P&)--p; if (as_ptr(r) != text+pos[to]) c.fail("--p gives %ld", (long)(as_ptr(r)-text)); } at = to; c.note("--p "); break;
		case 3: to = clamp(at-1L, legal); if (!legal) c.prune(); { const char* r = as_ptr(p--); if (r != text+pos[at]) c.fail("p-- gives %ld", (long)(r-text)); } at = to; c.note("p-- "); break;
		case 4: to = clamp(at+(long)k, legal); if (!legal) c.prune(); c.note("p+=%d ", k); p += k; at = to; break;
		case 5: to = clamp(at-(long)k, legal); if (!legal) c.prune(); c.note("p-=%d ", k); { if (as_ptr(p -= k) != text+pos[to]) c.fail("p-=%d gives the wrong value", k); } at = to; break;
		case 6: to = clamp(at+(long)k, legal); if (!legal) c.prune(); c.note("p+%d ", k);
			{ P q(p); if (as_ptr(q + k) != text+pos[to]) c.fail("p+%d gives %ld, expected %d", k, (long)(as_ptr(q+k)-text), pos[to]);
			  if (as_ptr(q) != text+pos[at]) c.fail("p+%d moved p", k);
			  q = q + k; if (q - p != pos[to] - pos[at]) c.fail("difference after p+%d is %ld", k, (long)(q - p)); p = q; } at = to; break;
		default: to = clamp(at-(long)k, legal); if (!legal) c.prune(); c.note("p-%d ", k);
			{ P q(p); if (as_ptr(q - k) != text+pos[to]) c.fail("p-%d gives %ld, expected %d", k, (long)(as_ptr(q-k)-text), pos[to]);
			  if (as_ptr(q) != text+pos[at]) c.fail("p-%d moved p", k);
			  q = q - k; if (p - q != pos[at] - pos[to]) c.fail("difference after p-%d is %ld", k, (long)(p - q)); p = q; } at = to; break;
		}
	}
	c.note("\n");
}
template<class P> static void at_bot(Ctx& c, const std::vector<int>& pos, const char* text, int origin)
{
	P p(text + pos[origin]);
	int last = pos.size()-1;
	for (int i = origin; i <= last; i++) {
		if (p.at_bot() != (i == origin)) c.fail("start of text reported %d at %d, origin %d", p.at_bot(), i, origin);
		if (i < last) ++p;
	}
	for (int i = last; i >= origin; i--) {
		if (p.at_bot() != (i == origin)) c.fail("start of text reported %d at %d, origin %d", p.at_bot(), i, origin);
		--p;
	}
	P q(text + pos[last]), r(p); q = p; r += last;
	if (!q.at_bot()) c.fail("an assigned pointer lost its origin");
	q += 100; q -= 100;
	if (as_ptr(q) != text + pos[origin]) c.fail("an assigned pointer backed up to %ld, origin %d", (long)(as_ptr(q)-text), pos[origin]);
}
static void pointers(Ctx& c)
{
	static const char* T[] = {"", "a", "ab", "abc", "\xC3\xA9", "a\xE2\x82\xAC" "b", "\xC0\x80" "a", "\x80\xC3", "\xF0\x9F\x98\x80\xC3\xA9", "a\xFC\x80", "\xE2\x82\xC3\xA9z"};
	int type = c.choose(5);
	int ti = c.choose(c.param("texts", sizeof(T)/sizeof(T[0])));
	int depth = c.param("depth", 3);
	Exact e((const u8*)T[ti], strlen(T[ti])+1);
	const char* text = (const char*)e.p;
	std::vector<int> bytes, chars;
	int n = strlen(text);
	for (int i = 0; i <= n; i++) bytes.push_back(i);
	for (int i = 0; i < n; ) { chars.push_back(i); uint32_t v; i += ref_decode(e.p+i, n-i, v); }
	chars.push_back(n);
	std::vector<int>& pos = type >= 3 ? chars : bytes;
	int origin = c.choose(pos.size());
	c.setkey("type %d text '%s' origin %d", type, hex(e.p, n).c_str(), origin);
	switch (type) {
	case 0: drive<UnGuardedCharPtr, false, false>(c, "UnGuardedCharPtr", pos, text, origin, depth, false); break;
	case 1: drive<NulGuardedCharPtr, false, true>(c, "NulGuardedCharPtr", pos, text, origin, depth, false); break;
	case 2: drive<GuardedCharPtr, true, true>(c, "GuardedCharPtr", pos, text, origin, depth, false); at_bot<GuardedCharPtr>(c, pos, text, origin); break;
	case 3: {	// UTF8Backup without limit looks at up to six bytes before: give it room
		Exact w((const u8*)(std::string("xxxxxx") + text).c_str(), n+7);
		drive<NulGuardedUTF8Ptr, false, true>(c, "NulGuardedUTF8Ptr", pos, (const char*)w.p+6, origin, depth, true); break;
		}
	case 4: drive<GuardedUTF8Ptr, true, true>(c, "GuardedUTF8Ptr", pos, text, origin, depth, true); at_bot<GuardedUTF8Ptr>(c, pos, text, origin); break;
	}
	c.setkey("%s", "");
}
MC_CONFIG(ptr, "pointers", pointers, 3);
static void utf8ptr_chars(Ctx& c)	// the character seen through a pointer
{
	u8 s[8]; int n = c.choose(c.param("len", 3)+1);
	for (int i = 0; i < n; i++) s[i] = ALPHA[c.choose(12)];
	s[n] = 0;
	Exact e(s, n+1);
	c.setkey("bytes %s", hex(s, n).c_str());
	NulGuardedUTF8Ptr p((const char*)e.p); GuardedUTF8Ptr g((const char*)e.p);
	for (int i = 0; i < n; ) {
		uint32_t v; int l = ref_decode(s+i, n-i, v);
		if ((uint32_t)*p != v || (uint32_t)*g != v) c.fail("byte %d seen as U+%X, expected U+%X", i, (unsigned)*p, v);
		if (p.len() != l || g.len() != l) c.fail("byte %d: length %d, expected %d", i, p.len(), l);
		if (p.is1st() != !ref_cont(s[i])) c.fail("byte %d: first byte test", i);
		++p; ++g; i += l;
	}
	if (!p.at_eof() || !g.at_eof() || (const char*)p != (char*)e.p+n) c.fail("pointer does not end at the NUL");
	++p; ++g; p += 3; g += 3;
	if ((const char*)p != (char*)e.p+n || (const char*)g != (char*)e.p+n) c.fail("pointer moved past the NUL");
	c.state(mc::hstr(std::string((char*)s, n)));
	c.note("bytes %s\n", hex(s, n).c_str());
}
MC_CONFIG(u8c, "utf8_pointer_chars", utf8ptr_chars, 2);
