/*
 * C06-C10, C12: strings. The model of a string is its bytes; its characters are what they decode to.
 */
#define MC_MAIN
#include "mc.h"
#include <climits>
#include <strval.h>
#include <variant.h>
#include "ref_utf8.h"

using mc::Ctx;
typedef std::string S;

static S bytes_of(const StrVal& v)
{
	StrValIndex n; const char* p = v.asUTF8(n);
	return S(p, n);
}
static int nchars(const S& s) { return ref_offsets(s).size()-1; }
// Everything a string says about itself through accessors that do not change it
static void same(Ctx& c, const StrVal& v, const S& m, const char* what)
{
	Chars ch = ref_chars(m);
	int n = ch.size();
	if ((int)v.length() != n) c.fail("%s has length %d, expected %d for %s", what, (int)v.length(), n, show(m).c_str());
	if (v.isEmpty() != (n == 0) || (bool)v != (n != 0)) c.fail("%s: isEmpty", what);
	S b = bytes_of(v);
	if (b != m) c.fail("%s holds %s, expected %s", what, show(b).c_str(), show(m).c_str());
	if (v.numBytes() != m.size()) c.fail("%s: numBytes %d, expected %zu", what, (int)v.numBytes(), m.size());
	for (int i = 0; i < n; i += n > 600 && i > 100 && i < n-100 ? n/50 : 1) if ((uint32_t)v[i] != ch[i]) c.fail("%s: character %d of %s is U+%X, expected U+%X", what, i, show(m).c_str(), (unsigned)v[i], ch[i]);
	if (v[n] != 0) c.fail("%s: the character after the last is U+%X", what, (unsigned)v[n]);
}
// And through those that may terminate or bookmark it
static void same_nul(Ctx& c, StrVal& v, const S& m, const char* what)
{
	const char* p = v.asUTF8();
	if (memcmp(p, m.data(), m.size()) != 0 || p[m.size()] != 0) c.fail("%s: asUTF8 gives %s, expected %s", what, show(S(p, strnlen(p, m.size()+8))).c_str(), show(m).c_str());
}

// Each character in turn after looking at this one, where looking may leave a bookmark
static void same_after(Ctx& c, StrVal& v, const S& m, int at, const char* what)
{
	Chars ch = ref_chars(m);
	int n = ch.size();
	for (int j = 0; j <= n; j++) {
		(void)v[at];
		UCS4 got = v[j], want = j == n ? 0 : ch[j];
		if (got != want) c.fail("%s: character %d of %s, after character %d, is U+%X, expected U+%X", what, j, show(m).c_str(), at, (unsigned)got, (unsigned)want);
	}
	(void)v[at];
}

/*--- C06 ---*/
static const int NV = 3;
struct World {
	StrBody	stat;
	StrVal	v[NV]; S m[NV];
	int	next;
	World() : stat("s\xC3\xA9t\xE2\x82\xAC", StrStatic), next(0) {}
	void set(int i, const S& s) { v[i] = StrVal(s.data(), s.size()); m[i] = s; }
	void sl(int to, int from, int at, int len) { v[to] = v[from].substr(at, len); m[to] = ref_sub(m[from], at, len); }
	void copy(int to, int from) { v[to] = v[from]; m[to] = m[from]; }
	void drop(int i) { v[i] = StrVal(); m[i].clear(); }
};
#define EA "\xC3\xA9"
#define EU "\xE2\x82\xAC"
#define SM "\xF0\x9F\x98\x80"
static const int NSHAPE = 14;
static void shape(Ctx& c, World& w, int s)
{
	const char* t = "";
	switch (s) {
	case 0: t = "all empty"; break;
	case 1: w.set(0, "a" EA EU "b"); w.copy(1, 0); w.sl(2, 0, 1, 2); t = "a=4 characters b=a c=a.substr(1,2)"; break;
	case 2: w.set(0, "ab" EU "c"); w.sl(1, 0, 0, 2); w.sl(2, 0, 2, 2); t = "b,c = halves of a"; break;
	case 3: w.set(0, "a" EA EU "b"); w.sl(1, 0, 1, 2); w.drop(0); t = "b=the middle of a string that is gone"; break;
	case 4: w.set(0, EA "b" EU "d" EA "f" EU "h" EA "j"); w.sl(1, 0, 4, 6); (void)w.v[1].asUTF8(); w.sl(2, 0, 4, 2); t = "a=10 characters, b=its tail, bookmarked, c=its middle"; break;
	case 5: w.set(0, "x\xC3"); w.set(1, "\xA9z"); w.set(2, "\xE2\x82"); t = "pieces of characters"; break;
	case 6: w.v[0] = StrVal(&w.stat); w.m[0] = "s" EA "t" EU; w.sl(1, 0, 1, 2); w.set(2, "q"); t = "a over static text, b=its middle"; break;
	case 7: w.set(0, "ab" EU "c"); w.sl(1, 0, 0, 2); w.drop(0); w.set(2, "k"); t = "b=the start of a string that is gone"; break;
	case 8: w.v[0] = StrVal("a" EA, 3, 40); w.m[0] = "a" EA; w.copy(1, 0); t = "a with room to grow, b=a"; break;
	case 9: w.set(0, EA "b" EU "d" EA "f" EU "h" EA "j"); w.sl(1, 0, 3, 6); { StrVal x = w.v[1]*1; } w.drop(0); t = "b=the middle of a long string that is gone, bookmarked"; break;
	case 10: w.set(0, S("a\0" EA "\0", 5)); w.copy(1, 0); w.sl(2, 0, 1, 2); t = "with embedded Nuls"; break;
	case 11: w.set(0, "A" EU "z\xFF"); w.sl(1, 0, 1, 3); w.set(2, SM); t = "with a stray byte"; break;
	case 12: w.v[0] = StrVal(&w.stat); w.m[0] = "s" EA "t" EU; w.copy(1, 0); w.sl(2, 1, 2, 2); t = "a over static text, b=a, c=its tail"; break;
	case 13: w.set(0, "abcdefghij"); w.sl(1, 0, 5, 5); (void)w.v[1].asUTF8(); w.sl(2, 0, 0, 5); t = "ASCII, b=tail, bookmarked, c=head"; break;
	}
	c.note("%s", t);
}
static std::vector<int> positions(int n)
{
	std::vector<int> p;
	if (n <= 5) for (int i = 0; i <= n; i++) p.push_back(i);
	else p = {0, 1, 4, 5, n-1, n};
	return p;
}
static int pick(Ctx& c, const std::vector<int>& v) { return v[c.choose(v.size())]; }
static const char* PIECES[] = {"x", EA, SM, "\xFF"};
static StrVal cat(const StrVal& a, const StrVal& b) { return a + b; }

// What toLower etc. mean, character by character
static S map_chars(const S& s, UCS4 (*f)(UCS4)) { Chars r; for (uint32_t ch : ref_chars(s)) r.push_back(f(ch)); return ref_utf8(r); }
static S ref_json(const S& s)
{
	S o; char b[20];
	for (uint32_t ch : ref_chars(s)) switch (ch) {
	case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '/': o += "\\/"; break; case 8: o += "\\b"; break; case 12: o += "\\f"; break;
	case 10: o += "\\n"; break; case 13: o += "\\r"; break; case 9: o += "\\t"; break;
	default:
		if (ch < 32 || (ch >= 0xD800 && ch < 0xE000)) { snprintf(b, sizeof b, "\\u%04X", ch); o += b; }
		else if (ch < 0x10000) o += ref_utf8(ch);
		else if (ch <= 0x10FFFF) { ch -= 0x10000; snprintf(b, sizeof b, "\\u%04X\\u%04X", 0xD800 + (ch >> 10), 0xDC00 + (ch & 0x3FF)); o += b; }
		else o += ref_utf8(0xFFFD);
	}
	return o;
}
enum Op { ASSIGN, SUBSTR, PUSH, INSERT, APPEND, ADD, LOWER, UPPER, JSON, XFORM, TIMES, MARK,	// representative
	PLUSEQ, PREPEND, ADDCH, ADDLIT, LITADD, INSLIT, HEAD, TAIL, SHORTER, ASLOWER, ASUPPER, ASJSON, CLEAR, NOPS, NREP = PLUSEQ };

static void step(Ctx& c, World& w, int nops)
{
	int t = c.choose(NV), op = c.choose(nops);
	StrVal& v = w.v[t]; S& m = w.m[t];
	int n = nchars(m), i, k, s;
	char tn = 'a'+t;
	auto src = [&](const char* f) { int s = c.choose(NV); c.note("; %c.%s(%c", tn, f, 'a'+s); return s; };
	auto off = [&](int at) { return ref_offsets(m)[at]; };
	auto piece = [&](const char* f) { int p = c.choose(4); c.note("; %c.%s(%s", tn, f, show(PIECES[p]).c_str()); return p; };
	switch (op) {
	case ASSIGN: s = src("="); v = w.v[s]; { S x = w.m[s]; m = x; } break;
	case SUBSTR: s = src("=substr"); n = nchars(w.m[s]); i = pick(c, positions(n)); { std::vector<int> l{-1, 0, 1, 2, 5}; if (i > 0) l.pop_back(); k = pick(c, l); }
		c.note(",%d,%d", i, k); v = w.v[s].substr(i, k);
		{ S x = i >= n ? S() : ref_sub(w.m[s], i, k < 0 || k > n-i ? n-i : k); m = x; } break;
	case PUSH: s = piece("+=char"); v += (UCS4)ref_chars(PIECES[s])[0]; m += PIECES[s]; break;
	case INSERT: s = src("insert"); i = pick(c, positions(n)); c.note(",at %d", i); v.insert(i, w.v[s]); { S x = w.m[s]; m.insert(off(i), x); } break;
	case APPEND: s = src("append"); v.append(w.v[s]); { S x = w.m[s]; m += x; } break;
	case PLUSEQ: s = src("+="); v += w.v[s]; { S x = w.m[s]; m += x; } break;
	case PREPEND: s = src("prepend"); v.prepend(w.v[s]); { S x = w.m[s]; m = x + m; } break;
	case ADD: { s = src("=+"); int u = c.choose(NV); c.note(",%c", 'a'+u); StrVal r = cat(w.v[s], w.v[u]); v = r; m = S(w.m[s]) + w.m[u]; break; }
	case ADDCH: { s = src("=+char"); int p = c.choose(4); StrVal r = w.v[s] + (UCS4)ref_chars(PIECES[p])[0]; v = r; m = S(w.m[s]) + PIECES[p]; c.note(",%s", show(PIECES[p]).c_str()); break; }
	case ADDLIT: { s = src("=+lit"); StrVal r = w.v[s] + "l" EU; v = r; m = S(w.m[s]) + "l" EU; break; }
	case LITADD: { s = src("=lit+"); StrVal r = "l" EU + w.v[s]; v = r; m = "l" EU + S(w.m[s]); break; }
	case INSLIT: s = piece("insert"); i = pick(c, positions(n)); c.note(",at %d", i); v.insert(i, PIECES[s]); m.insert(off(i), PIECES[s]); break;
	case LOWER: c.note("; %c.toLower(", tn); v.toLower(); m = map_chars(m, UCS4ToLower); break;
	case UPPER: c.note("; %c.toUpper(", tn); v.toUpper(); m = map_chars(m, UCS4ToUpper); break;
	case JSON: c.note("; %c.toJSON(", tn); v.toJSON(); m = ref_json(m); break;
	case ASLOWER: { s = src("=asLower"); StrVal r = w.v[s].asLower(); v = r; m = map_chars(S(w.m[s]), UCS4ToLower); break; }
	case ASUPPER: { s = src("=asUpper"); StrVal r = w.v[s].asUpper(); v = r; m = map_chars(S(w.m[s]), UCS4ToUpper); break; }
	case ASJSON: { s = src("=asJSON"); StrVal r = w.v[s].asJSON(); v = r; m = ref_json(S(w.m[s])); break; }
	case XFORM: {	// double each character but the second, which goes
		k = (int)c.choose(2)*2-1; c.note("; %c.transform(after %d", tn, k);
		int at = 0;
		v.transform([&](const char*& cp, const char* ep) -> StrVal { const char* b = cp; cp += UTF8Len(cp); at++; if (at == 2) return ""; StrVal r(b, cp-b); return r+r; }, k);
		S r; Chars ch = ref_chars(m); at = 0;
		for (int j = 0; j < n; j++) if (j <= k) r += ref_utf8(ch[j]); else if (++at != 2) r += ref_utf8(ch[j]) + ref_utf8(ch[j]);
		m = r; break; }
	case TIMES: { s = src("=*"); k = (int)c.choose(4)-1; c.note(",%d", k); StrVal r = w.v[s] * k; v = r; S x; for (int j = 0; j < k; j++) x += w.m[s]; m = x; break; }
	case MARK: if (c.choose(2)) { i = pick(c, positions(n)); c.note("; %c[%d](", tn, i); same_after(c, v, m, i, "itself"); break; }
		c.note("; %c.asUTF8(", tn); same_nul(c, v, m, "itself"); break;
	case HEAD: s = src("=head"); n = nchars(w.m[s]); i = pick(c, positions(n)); c.note(",%d", i); v = w.v[s].head(i); { S x = ref_sub(w.m[s], 0, i); m = x; } break;
	case TAIL: s = src("=tail"); n = nchars(w.m[s]); i = pick(c, positions(n)); c.note(",%d", i); v = w.v[s].tail(i); { S x = ref_sub(w.m[s], n-i, i); m = x; } break;
	case SHORTER: s = src("=shorter"); n = nchars(w.m[s]); i = pick(c, positions(n)); c.note(",%d", i); v = w.v[s].shorter(i); { S x = ref_sub(w.m[s], 0, n-i); m = x; } break;
	case CLEAR: c.note("; %c=StrVal(", tn); v = StrVal(); m.clear(); break;
	}
	c.note(")");
	if (m.size() > 400) c.prune();
}
static void ops(Ctx& c)
{
	int depth = c.param("depth", 2), all = c.param("all", 1), first = c.param("first", 0);
	World w;
	int s = first + c.choose(c.param("shapes", NSHAPE-first));
	c.setkey("shape %d", s);
	shape(c, w, s);
	uint64_t h = s;
	for (int d = 0; d < depth; d++) {
		step(c, w, all ? NOPS : NREP);
		h = 7;
		for (int i = 0; i < NV; i++) {
			char nm[2] = {(char)('a'+i), 0};
			same(c, w.v[i], w.m[i], nm);
			h = mc::mix(h, mc::hstr(w.m[i]));
			for (int j = 0; j < i; j++)
				if ((w.v[i] == w.v[j]) != (w.m[i] == w.m[j]) || (w.v[i] != w.v[j]) == (w.m[i] == w.m[j])) c.fail("equality of %c and %c", 'a'+j, 'a'+i);
		}
		c.state(h);
	}
	for (int i = 0; i < NV; i++) { char nm[2] = {(char)('a'+i), 0}; same_nul(c, w.v[i], w.m[i], nm); }
	for (int i = 0; i < NV; i++) { char nm[2] = {(char)('a'+i), 0}; same(c, w.v[i], w.m[i], nm); }
	c.outcome(h);
	c.note("\n");
}
MC_CONFIG(ops, "string_ops", ops, 3);

/*--- C07 ---*/
// A string holding m: its own, a slice, the last slice of a body, over static text, made to grow
static const int NHOW = 6;
struct Held { StrBody* stat; S text; StrVal hold, v; Held() : stat(0) {} ~Held() { v = StrVal(); hold = StrVal(); delete stat; } };
static void make(Held& h, const S& m, int how, const S& pad = "\xC3\xA9z")
{
	int n = nchars(m), pn = nchars(pad);
	switch (how) {
	case 0: h.v = StrVal(m.data(), m.size()); break;
	case 1: case 2: { S t = pad + m + pad; StrVal all(t.data(), t.size()); h.v = all.substr(pn, n); if (n == 0) h.v = StrVal(); if (how == 1) h.hold = all; break; }
	case 3: h.text = m; h.stat = new StrBody(h.text.c_str(), StrStatic, h.text.size()); h.v = StrVal(h.stat); break;
	case 4: { h.text = pad + m; h.stat = new StrBody(h.text.c_str(), StrStatic, h.text.size()); StrVal all(h.stat); h.v = n ? all.substr(pn) : StrVal(); break; }
	case 5: { StrVal s("q", 1, 30); auto o = ref_offsets(m); for (int i = 0; i < n; i++) s += StrVal(m.data()+o[i], o[i+1]-o[i]); s = s.substr(1); h.v = s; break; }
	}
}
static void examine(Ctx& c, const StrVal& v, const S& m)
{
	int n = nchars(m);
	same(c, v, m, "the string");
	for (int i = 0; i <= n+1; i++) {
		for (int k = -2; k <= n-i+2; k++) {
			S want = k < -1 || i >= n ? S() : ref_sub(m, i, k < 0 || k > n-i ? n-i : k);
			StrVal r = v.substr(i, k);
			S got = bytes_of(r);
			if (got != want || (int)r.length() != nchars(want)) c.fail("substr(%d,%d) of %s gives %s, expected %s", i, k, show(m).c_str(), show(got).c_str(), show(want).c_str());
			same_nul(c, r, want, "a substring");
		}
		if (bytes_of(v.head(i)) != ref_sub(m, 0, std::min(i, n))) c.fail("head(%d) of %s gives %s", i, show(m).c_str(), show(bytes_of(v.head(i))).c_str());
		if (i <= n && bytes_of(v.tail(i)) != ref_sub(m, n-i, i)) c.fail("tail(%d) of %s gives %s", i, show(m).c_str(), show(bytes_of(v.tail(i))).c_str());
		if (bytes_of(v.shorter(i)) != ref_sub(m, 0, i > n ? 0 : n-i)) c.fail("shorter(%d) of %s gives %s", i, show(m).c_str(), show(bytes_of(v.shorter(i))).c_str());
	}
	if (v[-1] != UCS4_NONE || v[n+1] != UCS4_NONE) c.fail("a character out of range of %s", show(m).c_str());
}
static void indexing(Ctx& c)
{
	static const char ALPHA[] = {'a', '\xC3', '\xA9', '\xE2', '\x82', '\xFF', '\0', '\xF0', '\x9F'};
	int na = c.param("alphabet", 6), len = c.param("len", 4);
	int n = c.choose(len+1);
	S m; for (int i = 0; i < n; i++) m += ALPHA[c.choose(na)];
	int how = c.choose(NHOW);
	c.setkey("%s made in way %d", show(m).c_str(), how); c.note("%s made in way %d\n", show(m).c_str(), how);
	// padding must neither complete nor be completed by the text
	S pad = "az";
	u8 last = n ? m[n-1] : 0;
	Held h;
	make(h, m, how, pad);
	examine(c, h.v, m);
	for (int i = 0, k = nchars(m); i <= k; i++) same_after(c, h.v, m, i, "the string");
	same_nul(c, h.v, m, "the string");
	for (int i = 0, k = nchars(m); i <= k; i++) same_after(c, h.v, m, i, "the string");
	examine(c, h.v, m);
	c.state(mc::hstr(m, how+1)); (void)last;
}
MC_CONFIG(indexing, "string_indexing", indexing, 3);

// Long strings, where bookmarks are used: every order of a few accesses and changes
static void bookmarks(Ctx& c)
{
	static const char* P[] = {"a", EA, EU, SM, "\xFF"};
	int np = c.param("pieces", 3), len = c.param("len", 10), depth = c.param("depth", 2), pat = c.param("pattern", 3);
	// characters repeat a pattern, all patterns
	int q[6]; S m;
	for (int i = 0; i < pat; i++) q[i] = c.choose(np);
	int n = len - (int)c.choose(3);
	for (int i = 0; i < n; i++) m += P[q[i % pat]];
	int how = c.choose(NHOW);
	// What is around a slice decides whether its ends can be bookmarked
	static const char* PAD[] = {EA "z", EA "z" EU "yx" EA};
	int pad = how == 0 || how == 3 || how == 5 ? 0 : c.choose(2);
	c.setkey("%s made in way %d padded %d", show(m).c_str(), how, pad); c.note("%s made in way %d padded %d", show(m).c_str(), how, pad);
	Held h;
	make(h, m, how, PAD[pad]);
	StrVal v = h.v;
	for (int d = 0; d < depth; d++) {
		n = nchars(m);
		int op = c.choose(8), i;
		switch (op) {
		case 0: c.note("; asUTF8"); same_nul(c, v, m, "the string"); break;
		case 1: c.note("; *1"); { StrVal x = v*1; if (bytes_of(x) != m) c.fail("*1"); } break;
		case 2: i = c.choose(n+1); c.note("; insert at %d", i); v.insert(i, EA); m.insert(ref_offsets(m)[i], EA); break;
		case 3: i = c.choose(n); c.note("; substr(%d)", i); v = v.substr(i); m = ref_sub(m, i, n-i); break;
		case 4: i = 1+c.choose(n); c.note("; head(%d)", i); v = v.head(i); m = ref_sub(m, 0, i); break;
		case 5: c.note("; copy"); { StrVal x; x = v; v = StrVal(); v = x; x += "q"; } break;
		case 7: i = c.choose(n+1); c.note("; look at %d", i); same_after(c, v, m, i, "the string"); break;
		case 6: c.note("; toUpper"); v.toUpper(); m = map_chars(m, UCS4ToUpper); break;
		}
		same(c, v, m, "the string");
		c.state(mc::mix(mc::hstr(m, how+1), op));
	}
	n = nchars(m);
	for (int i = 0; i <= n; i += i < 3 || i > n-3 ? 1 : (n-4)/2 > 0 ? (n-4)/2 : 1) same_after(c, v, m, i, "the string");
	examine(c, v, m);
	StrVal kept(v), assigned; assigned = v;
	same(c, kept, m, "a copy"); same(c, assigned, m, "a string assigned");
	if (n > 4) for (int i = 1; i < 4; i++) { StrVal part = v.substr(i, n-i-1); (void)part[n-i-2]; same_after(c, part, ref_sub(m, i, n-i-1), 1, "a part"); same_nul(c, part, ref_sub(m, i, n-i-1), "a part"); same_after(c, part, ref_sub(m, i, n-i-1), n-i-2, "a part"); }
	c.note("\n");
}
MC_CONFIG(bookmarks, "string_bookmarks", bookmarks, 3);

/*--- C08 ---*/
static int naive(const Chars& h, const Chars& n, int from, bool back)
{
	int last = (int)h.size() - (int)n.size();
	auto at = [&](int i) { for (size_t k = 0; k < n.size(); k++) if (h[i+k] != n[k]) return false; return true; };
	if (!back) { for (int i = from+1; i <= last; i++) if (at(i)) return i; }
	else { for (int i = std::min(from < 0 ? last : from-1, last); i >= 0; i--) if (at(i)) return i; }
	return -1;
}
static const char* SET1[] = {"a", EA, EU, "b"};			// whole characters
static const char* SET2[] = {"a", "\xC3", "\xA9", "\xFF"};	// bytes that may or may not make characters
static S text(Ctx& c, const char** set, int na, int len) { int n = c.choose(len+1); S m; for (int i = 0; i < n; i++) m += set[c.choose(na)]; return m; }

static void search(Ctx& c)
{
	const char** set = c.param("bytes", 0) ? SET2 : SET1;
	int na = c.param("alphabet", 3);
	S hs = text(c, set, na, c.param("len", 4)), ns = text(c, set, na, c.param("needle", 3));
	int how = c.choose(4), nhow = c.choose(3);
	c.setkey("%s in %s, made in ways %d %d", show(ns).c_str(), show(hs).c_str(), nhow, how);
	c.note("%s in %s, made in ways %d %d\n", show(ns).c_str(), show(hs).c_str(), nhow, how);
	// The haystack has neighbours that would match
	S pad = c.param("bytes", 0) ? S("a\xFF") : S(ns.empty() ? "b" : ns);
	Held h, nd;
	make(h, hs, how, pad); make(nd, ns, nhow, S("ab"));
	const StrVal v = h.v, x = nd.v;
	Chars hc = ref_chars(hs), nc = ref_chars(ns);
	int n = hc.size();
	uint64_t o = 0;
	for (int from = -1; from <= n; from++) {
		int want, got;
		want = naive(hc, nc, from, false);
		if ((got = v.find(x, from)) != want) c.fail("find(%s, after %d) in %s gives %d, expected %d", show(ns).c_str(), from, show(hs).c_str(), got, want);
		o = mc::mix(o, got);
		want = naive(hc, nc, from, true);
		if ((got = v.rfind(x, from)) != want) c.fail("rfind(%s, before %d) in %s gives %d, expected %d", show(ns).c_str(), from, show(hs).c_str(), got, want);
		o = mc::mix(o, got);
		auto in = [&](int i) { return std::find(nc.begin(), nc.end(), hc[i]) != nc.end(); };
		int fa = -1, ra = -1, fn = -1, rn = -1;
		for (int i = n-1; i > from; i--) (in(i) ? fa : fn) = i;
		for (int i = 0; i < (from < 0 ? n : from); i++) (in(i) ? ra : rn) = i;
		if ((got = v.findAny(x, from)) != fa) c.fail("findAny(%s, after %d) in %s gives %d, expected %d", show(ns).c_str(), from, show(hs).c_str(), got, fa);
		if ((got = v.rfindAny(x, from)) != ra) c.fail("rfindAny(%s, before %d) in %s gives %d, expected %d", show(ns).c_str(), from, show(hs).c_str(), got, ra);
		if ((got = v.findNot(x, from)) != fn) c.fail("findNot(%s, after %d) in %s gives %d, expected %d", show(ns).c_str(), from, show(hs).c_str(), got, fn);
		if ((got = v.rfindNot(x, from)) != rn) c.fail("rfindNot(%s, before %d) in %s gives %d, expected %d", show(ns).c_str(), from, show(hs).c_str(), got, rn);
		o = mc::mix(o, fa*7+fn);
		if (nc.size() == 1) {
			Chars one{nc[0]};
			want = naive(hc, one, from, false);
			if ((got = v.find((UCS4)nc[0], from)) != want) c.fail("find(U+%X, after %d) in %s gives %d, expected %d", nc[0], from, show(hs).c_str(), got, want);
			want = naive(hc, one, from, true);
			if ((got = v.rfind((UCS4)nc[0], from)) != want) c.fail("rfind(U+%X, before %d) in %s gives %d, expected %d", nc[0], from, show(hs).c_str(), got, want);
		}
	}
	if (nc.size() <= 1) {	// a character that is only beyond the end
		if (v.find((UCS4)0) != -1 || v.rfind((UCS4)0) != -1) c.fail("found a Nul in %s", show(hs).c_str());
	}
	if (v.find(x) != v.find(x, -1) || v.rfind(x) != v.rfind(x, -1) || v.findAny(x) != v.findAny(x, -1) || v.findNot(x) != v.findNot(x, -1)) c.fail("defaults");
	same(c, v, hs, "the string searched");
	c.state(mc::hstr(hs, mc::hstr(ns, how*8+nhow))); c.outcome(o);
}
MC_CONFIG(search, "string_search", search, 4);

static void compare(Ctx& c)
{
	const char** set = c.param("bytes", 0) ? SET2 : SET1;
	int na = c.param("alphabet", 4), len = c.param("len", 3);
	S a = text(c, set, na, len), b = text(c, set, na, len);
	int how = c.choose(5), bhow = c.choose(5);
	c.setkey("%s with %s, ways %d %d", show(a).c_str(), show(b).c_str(), how, bhow);
	c.note("%s with %s, ways %d %d\n", show(a).c_str(), show(b).c_str(), how, bhow);
	Held ha, hb;
	make(ha, a, how, S("a\xFF")); make(hb, b, bhow, S("ab"));
	const StrVal x = ha.v, y = hb.v;
	auto sgn = [](int i) { return i < 0 ? -1 : i > 0; };
	int want = a < b ? -1 : b < a ? 1 : 0;		// std::string compares bytes as unsigned
	if (sgn(x.compare(y)) != want || sgn(y.compare(x)) != -want) c.fail("%s compare %s gives %d and %d", show(a).c_str(), show(b).c_str(), x.compare(y), y.compare(x));
	if ((x == y) != (want == 0) || (x != y) != (want != 0) || (x < y) != (want < 0) || (x <= y) != (want <= 0) || (x > y) != (want > 0) || (x >= y) != (want >= 0))
		c.fail("%s and %s: the relational operators disagree", show(a).c_str(), show(b).c_str());
	if (StrVal::equiv(x, y) != (want == 0)) c.fail("equiv");
	// slices of one string
	int n = nchars(a);
	for (int i = 0; i <= n; i++) for (int k = 0; k <= n-i; k++) {
		S s = ref_sub(a, i, k);
		want = s < a ? -1 : a < s ? 1 : 0;
		StrVal v = x.substr(i, k);
		if (sgn(v.compare(x)) != want || sgn(x.compare(v)) != -want) c.fail("%s compared with its substr(%d,%d)", show(a).c_str(), i, k);
	}
	c.state(mc::hstr(a, mc::hstr(b, how*8+bhow)));
}
MC_CONFIG(cmp, "string_compare", compare, 4);

/*--- C12 ---*/
static void transform(Ctx& c)
{
	static const char* P[] = {"a", EA, EU, "\xFF"};
	int na = c.param("alphabet", 3), len = c.param("len", 4), maxcalls = 6;
	S m = text(c, P, na, len);
	int n = nchars(m), how = c.choose(NHOW), after = (int)c.choose(n+1)-1;
	c.setkey("%s made in way %d after %d", show(m).c_str(), how, after);
	c.note("%s made in way %d, after %d:", show(m).c_str(), how, after);
	Held h; make(h, m, how);
	StrVal v = h.v, keep = v, piece("X" EU);
	auto off = ref_offsets(m);
	S want; for (int i = 0; i <= after && i < n; i++) want += m.substr(off[i], off[i+1]-off[i]);
	int at = after+1; bool stopped = false; int calls = 0;
	const int reps = c.param("replies", 5);
	StrVal& r = v.transform([&](const char*& cp, const char* ep) -> StrVal {
		calls++;
		if (stopped || at >= n) { c.fail("the callback is called %s", stopped ? "after it had stopped" : "beyond the end"); }
		if ((size_t)(ep-cp) != m.size()-off[at] || memcmp(cp, m.data()+off[at], ep-cp)) c.fail("callback %d is shown %s, expected %s", calls, show(S(cp, ep-cp)).c_str(), show(m.substr(off[at])).c_str());
		int take = c.choose(std::min(n-at, 2)+1);
		int give = c.choose(reps);
		S eaten = m.substr(off[at], off[at+take]-off[at]);
		c.note(" take %d give %d", take, give);
		cp += eaten.size();
		at += take;
		if (take == 0) stopped = true;
		switch (give) {
		default: return StrVal();
		case 1: want += "z"; return "z";
		case 2: want += "X" EU; return piece;
		case 3: want += EU; return piece.substr(1);
		case 4: want += "0123456789" EA "0123456789"; return "0123456789" EA "0123456789";
		}
	}, after);
	for (; at < n; at++) want += m.substr(off[at], off[at+1]-off[at]);
	if (&r != &v) c.fail("returns something else");
	same(c, v, want, "the result");
	same_nul(c, v, want, "the result");
	same(c, keep, m, "the copy"); same(c, h.v, m, "the original"); same(c, piece, "X" EU, "the replacement");
	c.state(mc::hstr(want, mc::hstr(m, how*16+after)));
	c.note(" -> %s\n", show(want).c_str());
	(void)maxcalls;
}
MC_CONFIG(xform, "string_transform", transform, 4);

static void cases(Ctx& c)
{
	static const char* P[] = {"a", "Z", EA, "\xC3\x89", EU, "\xC7\x85"/*Dz caron title*/, "\xC4\xB1"/*dotless i*/, "\xFF", "\xC5\xBF"/*long s*/, "\xC8\xBA"/*A stroke: 2 bytes, lower 3*/, "\xE2\xB1\xA5", "\xC4\xB0"};
	int na = c.param("alphabet", 8);
	S m = text(c, P, na, c.param("len", 4));
	int how = c.choose(NHOW);
	c.setkey("%s made in way %d", show(m).c_str(), how); c.note("%s made in way %d\n", show(m).c_str(), how);
	Held h; make(h, m, how);
	StrVal v = h.v;
	S lo = map_chars(m, UCS4ToLower), up = map_chars(m, UCS4ToUpper);
	same(c, v.asLower(), lo, "asLower"); same(c, v.asUpper(), up, "asUpper"); same(c, v, m, "the string");
	StrVal x = v; x.toLower(); same(c, x, lo, "toLower"); x.toUpper(); same(c, x, map_chars(lo, UCS4ToUpper), "toLower.toUpper");
	v.toUpper(); same(c, v, up, "toUpper"); same_nul(c, v, up, "toUpper");
	c.state(mc::hstr(m, how+1));
}
MC_CONFIG(cases, "string_case", cases, 3);

// Every character through whole-string conversion
static void all_case(Ctx& c)
{
	uint32_t hi = c.choose(0x440);
	for (uint32_t lo = 0; lo < 0x100; lo++) {
		uint32_t ch = hi << 8 | lo;
		if (ch >= 0x110000) break;
		if (ch >= 0x30000 && (ch & 0xFF)) continue;
		S m = "a" + ref_utf8(ch) + "B";
		StrVal v(m.data(), m.size());
		c.setkey("U+%X", ch);
		same(c, v.asLower(), map_chars(m, UCS4ToLower), "asLower"); same(c, v.asUpper(), map_chars(m, UCS4ToUpper), "asUpper");
	}
	c.cases(0x100); c.state(hi+1); c.note("U+%X00..FF in a string\n", hi);
}
MC_CONFIG(allcase, "string_case_all", all_case, 1);

static void join(Ctx& c)
{
	static const char* P[] = {"", "a", EA "b", "\xFF"};
	int n = c.choose(c.param("len", 4)+1);
	S j = P[c.choose(4)], want; std::vector<StrVal> e; std::vector<S> es;
	StrVal parent("--" EA "b\xFF--");
	int how = c.choose(3);
	for (int i = 0; i < n; i++) {
		int p = c.choose(4);
		StrVal s = P[p];
		if (how == 1 && p == 2) s = parent.substr(2, 2);
		if (how == 1 && p == 3) s = parent.substr(4, 1);
		e.push_back(s); es.push_back(P[p]); if (i) want += j; want += P[p];
	}
	c.setkey("%d joined by %s", n, show(j).c_str());
	StringArray a;
	if (how == 2) a = StringArray(e.data(), n); else for (auto& s : e) a.append(s);
	StrVal got = a.join(StrVal(j.data(), j.size()));
	same(c, got, want, "the joined string"); same_nul(c, got, want, "the joined string");
	if ((int)a.length() != n) c.fail("joining changed the array");
	for (int i = 0; i < n; i++) { same(c, a[i], es[i], "an element"); same(c, a.elem(i), es[i], "an element"); }
	c.state(mc::hstr(want, n)); c.note("%d strings joined by %s: %s\n", n, show(j).c_str(), show(want).c_str());
}
MC_CONFIG(join, "string_join", join, 3);

/*--- C09 ---*/
struct Num { long long value; ErrNum err; int scanned; bool has_value; };
static bool white(uint32_t ch) { return ref_white(ch); }
static int digit(uint32_t ch, int radix)
{
	int d = UCS4Digit(ch);
	if (d < 0 && ch >= 'a' && ch <= 'z') d = ch-'a'+10;
	else if (d < 0 && ch >= 'A' && ch <= 'Z') d = ch-'A'+10;
	return d < radix ? d : -1;
}
static Num ref_number(const Chars& s, int radix)
{
	int n = s.size(), i = 0;
	if (radix < 0 || radix > 36) return Num{0, STRERR_ILLEGAL_RADIX, 0, true};
	while (i < n && white(s[i])) i++;
	if (i == n) return Num{0, STRERR_NO_DIGITS, i, true};
	bool neg = false;
	if (s[i] == '+' || s[i] == '-') { neg = s[i++] == '-'; while (i < n && white(s[i])) i++; if (i == n) return Num{0, STRERR_NO_DIGITS, i, true}; }
	if (digit(s[i], 10) == 0 && i+1 < n && (radix == 0 || radix == 2) && (s[i+1] == 'b' || s[i+1] == 'B')) { radix = 2; i += 2; }
	else if (digit(s[i], 10) == 0 && i+1 < n && (radix == 0 || radix == 16) && (s[i+1] == 'x' || s[i+1] == 'X')) { radix = 16; i += 2; }
	else if (radix == 0) radix = digit(s[i], 10) == 0 && i+1 < n ? 8 : 10;
	if (i == n) return Num{0, STRERR_NO_DIGITS, i, true};
	if (digit(s[i], radix) < 0) return Num{0, STRERR_NOT_NUMBER, i, true};
	long long v = 0; bool big = false;
	while (i < n && digit(s[i], radix) >= 0) { v = v*radix + digit(s[i++], radix); if (v > 0x200000000LL) { v = 0x200000000LL; big = true; } }
	if (v > 0x7FFFFFFFLL + neg) big = true;
	int after = i;
	while (i < n && white(s[i])) i++;
	(void)after;
	if (big) return Num{0, STRERR_NUMBER_OVERFLOW, -1, false};
	return Num{neg ? -v : v, i < n ? STRERR_TRAIL_TEXT : ErrNum(0), i, true};
}
static void check_number(Ctx& c, const StrVal& v, const S& m, int radix)
{
	Num w = ref_number(ref_chars(m), radix);
	ErrNum e = STRERR_ILLEGAL_RADIX; StrValIndex sc = 99;
	int32_t got = v.asInt32(&e, radix, &sc);
	if (e != w.err) c.fail("%s in radix %d: error %08X, expected %08X", show(m).c_str(), radix, (unsigned)(int32_t)e, (unsigned)(int32_t)w.err);
	if (w.has_value && got != w.value) c.fail("%s in radix %d gives %d, expected %lld", show(m).c_str(), radix, got, w.value);
	if (w.scanned >= 0 && (int)sc != w.scanned) c.fail("%s in radix %d: scanned %d, expected %d", show(m).c_str(), radix, (int)sc, w.scanned);
	if (w.has_value && (v.asInt32(0, radix) != w.value || v.asInt32(0, radix, &sc) != w.value)) c.fail("%s in radix %d depends on what is asked for", show(m).c_str(), radix);
	if (e == 0 && (int)sc != nchars(m)) c.fail("%s in radix %d: not all scanned, no error", show(m).c_str(), radix);
	same(c, v, m, "the string");
	c.outcome(mc::mix((int)w.err.msg(), radix));
}
static void numbers(Ctx& c)
{
	static const char* P[] = {"0", "1", "7", " ", "-", "b", "x", "9", "+", "f", "z", "B", "X", "8", "\xD9\xA3"/*arabic-indic 3*/, EA, "\t", "2"};
	static const int R[] = {0, 10, 2, 16, 8, 36, 3, 11, -1, 37};
	int na = c.param("alphabet", 9);
	S m = text(c, P, na, c.param("len", 4));
	int how = c.choose(3);
	c.setkey("number %s", show(m).c_str()); c.note("number %s, in 10 radices, made in way %d\n", show(m).c_str(), how);
	Held h; make(h, m, how, "17");
	const StrVal v = h.v;
	for (int i = 0; i < (int)c.param("radices", 10); i++) check_number(c, v, m, R[i]);
	c.cases(c.param("radices", 10)); c.state(mc::hstr(m, how+1));
}
MC_CONFIG(numbers, "string_numbers", numbers, 4);

static S to_radix(unsigned long long v, int radix)
{
	S s; do { int d = v % radix; s.insert(s.begin(), d < 10 ? '0'+d : 'a'+d-10); v /= radix; } while (v);
	return s;
}
// In every radix, numbers about every power of 2 and of the radix, and with digits more than fit
static void magnitudes(Ctx& c)
{
	int radix = 2+c.choose(35);
	int e = c.choose(68), neg = c.choose(2);
	std::vector<S> t;
	if (e < 64) { for (int d = -2; d <= 2; d++) { unsigned long long v = (1ull << e) + d; t.push_back(to_radix(v, radix)); } }
	else { S s = to_radix(~0ull, radix); t.push_back(s); t.push_back(s + "0"); t.push_back(S(s.size(), e == 64 ? '1' : to_radix(radix-1, radix)[0])); t.push_back("1" + S(s.size()+e-64, '0')); t.push_back(S(s.size()+e-65, '1')); }
	unsigned long long p = 1; for (int i = 0; i < 64 && p <= ~0ull/radix; i++) { p *= radix; if (i == e) { t.push_back(to_radix(p-1, radix)); t.push_back(to_radix(p, radix)); t.push_back(to_radix(p+1, radix)); } }
	uint64_t h = mc::mix(radix, e*2+neg);
	for (S s : t) for (int upper = 0; upper < 2; upper++) {
		if (upper) for (char& ch : s) if (ch >= 'a' && ch <= 'z') ch -= 32;
		for (int f = 0; f < 4; f++) {
			S m = S(neg ? "-" : f == 3 ? "+" : "") + s;
			if (f == 1) m = "  " + m + " "; if (f == 2) m = m + "!";
			c.setkey("%s radix %d", m.c_str(), radix);
			check_number(c, StrVal(m.data(), m.size()), m, radix);
			if (radix == 10 && m[neg || f == 3] != '0') check_number(c, StrVal(m.data(), m.size()), m, 0);
			h = mc::mix(h, mc::hstr(m)); c.state(h);
		}
	}
	c.cases(t.size()*8); c.note("radix %d about 2^%d, e.g. %s\n", radix, e, t[0].c_str());
}
MC_CONFIG(magnitudes, "number_magnitudes", magnitudes, 2);

/*--- C10 ---*/
// Decode the inside of a JSON string literal by RFC 8259; false if it is not legal
static bool json_decode(const S& j, Chars& out)
{
	Chars in = ref_chars(j);
	auto hex4 = [&](size_t i, uint32_t& v) { v = 0; if (i+4 > in.size()) return false; for (int k = 0; k < 4; k++) { uint32_t d = in[i+k]; if (d >= '0' && d <= '9') d -= '0'; else if (d >= 'a' && d <= 'f') d -= 'a'-10; else if (d >= 'A' && d <= 'F') d -= 'A'-10; else return false; v = v*16+d; } return true; };
	for (size_t i = 0; i < in.size(); i++) {
		uint32_t ch = in[i];
		if (ch < 0x20 || ch == '"' || ch > 0x10FFFF || (ch >= 0xD800 && ch < 0xE000)) return false;
		if (ch != '\\') { out.push_back(ch); continue; }
		if (++i >= in.size()) return false;
		switch (in[i]) {
		case '"': case '\\': case '/': out.push_back(in[i]); break;
		case 'b': out.push_back(8); break; case 'f': out.push_back(12); break; case 'n': out.push_back(10); break;
		case 'r': out.push_back(13); break; case 't': out.push_back(9); break;
		case 'u': {
			uint32_t u, l;
			if (!hex4(i+1, u)) return false;
			i += 4;
			if (u >= 0xD800 && u < 0xDC00 && i+2 < in.size() && in[i+1] == '\\' && in[i+2] == 'u' && hex4(i+3, l) && l >= 0xDC00 && l < 0xE000) { u = 0x10000 + ((u-0xD800) << 10) + (l-0xDC00); i += 6; }
			out.push_back(u); break; }
		default: return false;
		}
	}
	return true;
}
static void check_json(Ctx& c, const StrVal& v, const S& m)
{
	StrVal j = v.asJSON();
	S js = bytes_of(j);
	same(c, j, js, "the JSON");
	Chars back, want;
	for (uint32_t ch : ref_chars(m)) want.push_back(ch);
	if (!json_decode(js, back)) c.fail("%s as JSON is not legal: %s", show(m).c_str(), show(js).c_str());
	for (uint32_t& ch : want) if (ch > 0x10FFFF) ch = 0;		// JSON cannot say it
	if (back.size() != want.size()) c.fail("%s as JSON is %s", show(m).c_str(), show(js).c_str());
	for (size_t i = 0; i < want.size(); i++) if (want[i] && back[i] != want[i]) c.fail("%s as JSON is %s", show(m).c_str(), show(js).c_str());
}
static void json_all(Ctx& c)
{
	uint32_t hi = c.choose(0x1100);
	for (uint32_t lo = 0; lo < 0x100; lo++) {
		uint32_t ch = hi << 8 | lo;
		if (ch >= 0xD800 && ch < 0xE000) continue;
		S m = "a" + ref_utf8(ch) + (lo & 1 ? "0" : EA);
		c.setkey("U+%X", ch);
		StrVal v(m.data(), m.size());
		check_json(c, v, m);
		same(c, v, m, "the string");
	}
	c.cases(256); c.state(hi+1); c.note("U+%X00..FF as JSON\n", hi);
}
MC_CONFIG(jsonall, "json_all_characters", json_all, 1);
static void json_strings(Ctx& c)
{
	static const char* P[] = {"a", "\"", "\\", SM, "\n", EA, "/", "\x01", "\x7F", "\xFF", "u", "\xEE\x80\x80", "\xF4\x8F\xBF\xBF"};
	int n = c.choose(c.param("len", 4)+1); S m;
	for (int i = 0; i < n; i++) { int p = c.choose(1+c.param("alphabet", 8)); m += p == 0 ? S(1, '\0') : S(P[p-1]); }
	int how = c.choose(NHOW);
	c.setkey("%s made in way %d", show(m).c_str(), how);
	Held h; make(h, m, how);
	StrVal v = h.v, keep = v;
	check_json(c, v, m); same(c, v, m, "the string");
	S js = bytes_of(v.asJSON());
	v.toJSON(); same(c, v, js, "toJSON"); same_nul(c, v, js, "toJSON"); same(c, keep, m, "the copy"); same(c, h.v, m, "the original");
	c.state(mc::hstr(m, how+1)); c.note("%s made in way %d -> %s\n", show(m).c_str(), how, show(js).c_str());
}
MC_CONFIG(jsonstr, "json_strings", json_strings, 3);

/*--- C14: arrays of strings compared and searched ---*/
static void string_array_compare(Ctx& c)
{
	static const char* P[] = {"a", "", "b", "ab", EA, SM};
	const int np = c.param("texts", 4), maxlen = c.param("len", 2);
	std::vector<S> m[2]; StringArray a[2], hold[2]; StrVal longer("xabxb\xC3\xA9y");
	for (int k = 0; k < 2; k++) {
		int n = c.choose(maxlen+1), how = c.choose(3);
		std::vector<StrVal> vals;
		for (int i = 0; i < n; i++) { m[k].push_back(P[c.choose(np)]); vals.push_back(StrVal(m[k][i].data(), m[k][i].size())); }
		if (how == 1) for (auto& v : vals) if (!v.isEmpty()) { int p = longer.find(v); if (p >= 0) v = longer.substr(p, v.length()); }	// slices of one string
		if (how == 2) {		// a slice of a longer array
			vals.insert(vals.begin(), StrVal("b")); vals.push_back(StrVal("a"));
			hold[k] = StringArray(vals.data(), vals.size());
			a[k] = hold[k].slice(1, n);
		} else for (auto& v : vals) a[k].append(v);
		c.note("[%d]", how); for (auto& s : m[k]) c.note(" %s", show(s).c_str()); c.note("\n");
	}
	auto chars = [](const std::vector<S>& v) { std::vector<Chars> r; for (auto& s : v) { Chars x; for (uint32_t ch : ref_chars(s)) x.push_back(ch); r.push_back(x); } return r; };
	auto x = chars(m[0]), y = chars(m[1]);
	auto sgn = [](int i) { return i < 0 ? -1 : i > 0; };
	int want = x < y ? -1 : y < x ? 1 : 0;
	if (sgn(a[0].compare(a[1])) != want || sgn(a[1].compare(a[0])) != -want) c.fail("compare gives %d and %d, expected %d", a[0].compare(a[1]), a[1].compare(a[0]), want);
	if ((a[0] == a[1]) != !want || (a[0] != a[1]) != !!want) c.fail("== or != is wrong");
	for (int e = 0; e < np; e++) {
		StrVal el(P[e]); int n = m[0].size();
		for (int from = -1; from < n; from++) {
			int f = -1, r = -1;
			for (int i = from+1; i < n && f < 0; i++) if (m[0][i] == P[e]) f = i;
			for (int i = (from < 0 ? n : from)-1; i >= 0 && r < 0; i--) if (m[0][i] == P[e]) r = i;
			if (a[0].find(el, from) != f) c.fail("find %s after %d gives %d, expected %d", show(P[e]).c_str(), from, a[0].find(el, from), f);
			if (a[0].rfind(el, from) != r) c.fail("rfind %s before %d gives %d, expected %d", show(P[e]).c_str(), from, a[0].rfind(el, from), r);
		}
	}
	c.state(mc::hstr(show(m[0].empty() ? S() : m[0][0]), m[0].size()*8+m[1].size()));
}
MC_CONFIG(strarrcmp, "string_array_compare", string_array_compare, 4);

/*--- Sizes: the same statements, on texts of every length to some bound and about larger powers of 2 ---*/
static const int NPAT = 8;
// Character i of a text of a certain kind. Neighbouring characters differ, and texts do not repeat within 23 characters
static S char_at(int kind, int i)
{
	static const char* MIX[] = {"a", EA, EU, "b", SM};
	switch (kind) {
	case 0: return S(1, 'a'+i%23);
	case 1: { uint32_t ch = 0x3B1+i%23; return ref_utf8(ch); }
	case 2: return i%23 == 22 ? S("z") : S(MIX[i%5]);
	case 3: return i%16 == 9 ? S(EA) : S(1, 'A'+i%23);
	case 4: return i%9 == 8 ? S(1, '\0') : S(1, 'k'+i%7);
	case 5: { uint32_t ch = 0x4E00+i%23; return ref_utf8(ch); }
	case 6: return i%11 == 10 ? S("\xFF") : S(1, 'a'+i%23);
	default: { uint32_t ch = 0x1F600+i%23; return ref_utf8(ch); }
	}
}
static S run_of(int kind, int n, int from = 0) { S m; for (int i = 0; i < n; i++) m += char_at(kind, from+i); return m; }
static int size_of(Ctx& c, int upto, const char* w)
{
	static const int BIG[] = {127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 65535, 65536, 70000};
	int big = c.param(w, 0), n = c.choose(upto+1+big);
	return n <= upto ? n : BIG[n-upto-1];
}
static void sizes_change(Ctx& c)
{
	int n = size_of(c, c.param("n", 40), "bign"), k = size_of(c, c.param("k", 40), "bigk"), kind = c.choose(c.param("kinds", 4)), op = c.choose(9);
	int where = op <= 1 ? c.choose(4) : 0, how = n > 1000 ? c.choose(3) : c.choose(NHOW);
	S m = run_of(kind, n), x = run_of(kind, k, 5);
	Held h, g; make(h, m, how); make(g, x, how % 3);
	StrVal v = h.v, keep = v, y = g.v, head = v.head(n/2);
	int at = where == 0 ? 0 : where == 1 ? n : where == 2 ? n/2 : n > 0 ? n-1 : 0;
	auto off = [&](const S& s, int i) { return ref_offsets(s)[i]; };
	S want = m;
	c.setkey("n %d k %d kind %d op %d where %d how %d", n, k, kind, op, where, how); c.note("a text of %d characters of kind %d made in way %d, operation %d with %d characters at %d\n", n, kind, how, op, k, at);
	switch (op) {
	case 0: v.insert(at, y); want.insert(off(m, at), x); break;
	case 1: { StrVal r = v; (void)r.asUTF8(); v = r; v.insert(at, v.substr(at, k)); S t = ref_sub(m, at, std::min(k, n-at)); want.insert(off(m, at), t); break; }
	case 2: v += y; want += x; break;
	case 3: v = y + v; want = x + m; break;
	case 4: for (int i = 0; i < k && k <= 300; i++) { UCS4 ch = ref_chars(char_at(kind, i))[0]; v += ch; want += char_at(kind, i); } break;
	case 5: v = v.substr(std::min(k, n)); want = ref_sub(m, std::min(k, n), n-std::min(k, n)); break;
	case 6: v = v.head(std::min(k, n)); want = ref_sub(m, 0, std::min(k, n)); break;
	case 7: for (int i = 0; i < 3; i++) { v.append(y); want += x; } break;
	case 8: if (k <= 2048 && n*k <= 70000) { v = v*k; S r; for (int i = 0; i < k; i++) r += m; want = r; } break;
	}
	S hd = ref_sub(m, 0, n/2);
	same(c, v, want, "the result"); same(c, keep, m, "the copy"); same(c, y, x, "the argument"); same(c, head, hd, "the first half");
	same_nul(c, v, want, "the result"); same_nul(c, head, hd, "the first half"); same_nul(c, keep, m, "the copy");
	v += "!"; want += "!"; same(c, v, want, "the result and one more");
	same(c, keep, m, "the copy");
	c.state(mc::hstr(want, how+1));
}
MC_CONFIG(sizes_change, "string_sizes", sizes_change, 4);

// Every position and some lengths in strings of every length, in several orders of access
static void sizes_index(Ctx& c)
{
	int n = size_of(c, c.param("n", 40), "bign"), kind = c.choose(NPAT), how = c.choose(n > 1000 ? 3 : NHOW), order = c.choose(6);
	S m = run_of(kind, n);
	c.setkey("n %d kind %d how %d order %d", n, kind, how, order); c.note("a text of %d characters of kind %d made in way %d, read in order %d\n", n, kind, how, order);
	Held h; make(h, m, how); StrVal v = h.v;
	auto o = ref_offsets(m); Chars ch = ref_chars(m);
	S body = m;
	auto look = [&](int i) {
		if (n > 1100 && i % 61 && i > 5 && i < n-5) return;
		if ((uint32_t)v[i] != ch[i]) c.fail("character %d is U+%X, expected U+%X", i, (unsigned)v[i], ch[i]);
		if (n > 200 && i % 17 && i > 5 && i < n-5) return;
		for (int k : {1, 2, 9, n/3, n-i}) if (k >= 0 && i+k <= n) {
			StrVal s = v.substr(i, k); S want = m.substr(o[i], o[i+k]-o[i]);
			if (bytes_of(s) != want || (int)s.length() != k) c.fail("substr(%d,%d) is %s", i, k, show(bytes_of(s)).c_str());
			if (k == 9 && (uint32_t)s[8] != ch[i+8]) c.fail("character 8 of substr(%d,9) is U+%X, expected U+%X", i, (unsigned)s[8], ch[i+8]);
		}
	};
	switch (order) {
	case 0: for (int i = 0; i < n; i++) look(i); break;
	case 1: for (int i = n; --i >= 0;) look(i); break;
	case 2: for (int i = 0; 2*i < n; i++) { look(i); look(n-1-i); } break;
	case 3: same_nul(c, v, m, "it"); for (int i = 0; i < n; i++) look((i*7+n/2)%n); break;
	case 4: for (int i = 0; i < n && i < 200; i++) { StrVal t = v.tail(n-i), d = v.head(n-i); int l = n-i; if (l && ((uint32_t)t[0] != ch[i] || (uint32_t)d[l-1] != ch[l-1])) c.fail("tail or head of %d", l); if ((int)t.length() != l || (int)d.length() != l || bytes_of(t) != m.substr(o[i]) || bytes_of(d) != m.substr(0, o[l])) c.fail("tail or head of %d", l); } break;
	case 5: { StrVal s = v; for (int i = 0; i < n && i < 200; i++) { if ((uint32_t)s[0] != ch[i] || (uint32_t)s[n-i-1] != ch[n-1]) c.fail("after %d removed", i); s = s.substr(1); if ((int)s.length() != n-i-1) c.fail("after %d removed, the length", i+1); } break; }
	}
	same(c, v, m, "it");
	c.state(mc::hstr(m, how*8+order));
}
MC_CONFIG(sizes_index, "string_sizes_index", sizes_index, 4);

// Needles of every length in texts that almost match
static void sizes_search(Ctx& c)
{
	int kind = c.choose(3), period = 1+c.choose(c.param("periods", 5)), n = c.choose(c.param("n", 36)+1), k = c.choose(c.param("k", 20)+1), odd = c.choose(3), how = c.choose(3);
	auto unit = [&](int i) { return kind == 0 ? S(1, 'a'+i%period) : kind == 1 ? ref_utf8(0x3B1+i%period) : i%period == period-1 ? S(EU) : S(1, 'a'+i%period); };
	S hs, ns; int break_at = odd == 0 ? -1 : odd == 1 ? n-1-k/2 : n/2;
	for (int i = 0; i < n; i++) hs += i == break_at ? S("!") : unit(i);
	for (int i = 0; i < k; i++) ns += odd == 2 && i == k-1 ? S("!") : unit(i+1);
	c.setkey("%s in %s, made in way %d", show(ns).c_str(), show(hs).c_str(), how); c.note("%s in %s, made in way %d\n", show(ns).c_str(), show(hs).c_str(), how);
	Held h, g; make(h, hs, how, ns.empty() ? S("a") : ns); make(g, ns, (how+1)%3);
	const StrVal v = h.v, x = g.v;
	Chars hc = ref_chars(hs), nc = ref_chars(ns);
	for (int from : {-1, 0, 1, n/2, n-k-1, n-k, n-2, n-1, n}) if (from >= -1 && from <= n) {
		int want = naive(hc, nc, from, false), got = v.find(x, from);
		if (got != want) c.fail("find after %d gives %d, expected %d", from, got, want);
		want = naive(hc, nc, from, true); got = v.rfind(x, from);
		if (got != want) c.fail("rfind before %d gives %d, expected %d", from, got, want);
		auto in = [&](int i) { return std::find(nc.begin(), nc.end(), hc[i]) != nc.end(); };
		int fa = -1, ra = -1, fn = -1, rn = -1;
		for (int i = n-1; i > from; i--) (in(i) ? fa : fn) = i;
		for (int i = 0; i < (from < 0 ? n : from); i++) (in(i) ? ra : rn) = i;
		if ((got = v.findAny(x, from)) != fa) c.fail("findAny after %d gives %d, expected %d", from, got, fa);
		if ((got = v.rfindAny(x, from)) != ra) c.fail("rfindAny before %d gives %d, expected %d", from, got, ra);
		if ((got = v.findNot(x, from)) != fn) c.fail("findNot after %d gives %d, expected %d", from, got, fn);
		if ((got = v.rfindNot(x, from)) != rn) c.fail("rfindNot before %d gives %d, expected %d", from, got, rn);
		for (UCS4 one : {(UCS4)'!', (UCS4)'a'}) { Chars o{(uint32_t)one};
			if ((got = v.find(one, from)) != (want = naive(hc, o, from, false))) c.fail("find(%c, after %d) gives %d, expected %d", (char)one, from, got, want);
			if ((got = v.rfind(one, from)) != (want = naive(hc, o, from, true))) c.fail("rfind(%c, before %d) gives %d, expected %d", (char)one, from, got, want); }
	}
	auto sgn = [](int i) { return i < 0 ? -1 : i > 0; };
	int want = hs < ns ? -1 : ns < hs ? 1 : 0;
	if (sgn(v.compare(x)) != want || sgn(x.compare(v)) != -want) c.fail("compare gives %d and %d", v.compare(x), x.compare(v));
	for (int i = 0; i <= n; i += 1+n/8) { StrVal a = v.head(i), b = v.tail(n-i); S sa = ref_sub(hs, 0, i), sb = ref_sub(hs, i, n-i);
		want = sa < sb ? -1 : sb < sa ? 1 : 0;
		if (sgn(a.compare(b)) != want || (a == b) != !want || sgn(b.compare(a)) != -want) c.fail("the first %d characters compared with the rest", i);
		StrVal own(sb.data(), sb.size());
		if (!(own == b) || !(b == own) || own.compare(b) || b != own) c.fail("the last %d characters differ from a copy", n-i); }
	c.state(mc::hstr(hs, mc::hstr(ns, how)));
}
MC_CONFIG(sizes_search, "string_sizes_search", sizes_search, 4);
// Long strings that are the same, but for one character
static void sizes_compare(Ctx& c)
{
	int n = size_of(c, c.param("n", 70), "bign"), kind = c.choose(NPAT), how = c.choose(3), d = c.choose(4);
	if (n == 0) return;
	S m = run_of(kind, n); auto o = ref_offsets(m);
	int at = d == 0 ? 0 : d == 1 ? n/2 : d == 2 ? n-1 : n*3/4;
	c.setkey("n %d kind %d at %d", n, kind, at); c.note("%d characters of kind %d compared with the same but for the one at %d, made in way %d\n", n, kind, at, how);
	Held h; make(h, m, how); const StrVal v = h.v;
	auto sgn = [](int i) { return i < 0 ? -1 : i > 0; };
	for (S put : {S("!"), S("z"), S(EU), S("\xFF"), S(SM), S(1, '\0'), S(""), S("aa"), char_at(kind, at)}) {
		S t = m.substr(0, o[at]) + put + m.substr(o[at+1]);
		Held g; make(g, t, (how+1)%3); const StrVal x = g.v;
		int want = m < t ? -1 : t < m ? 1 : 0;
		if (sgn(v.compare(x)) != want || sgn(x.compare(v)) != -want || (v == x) != !want || (x != v) != !!want || (v < x) != (want < 0)) c.fail("compare with %s there gives %d and %d", show(put).c_str(), v.compare(x), x.compare(v));
		int p = v.find(x), q = x.find(v); Chars vc = ref_chars(m), xc = ref_chars(t);
		int w = naive(vc, xc, -1, false); if (p != w) c.fail("find gives %d, expected %d", p, w);
		w = naive(xc, vc, -1, false); if (q != w) c.fail("find gives %d, expected %d", q, w);
	}
	c.state(mc::hstr(m, how*4+d));
}
MC_CONFIG(sizes_compare, "string_sizes_compare", sizes_compare, 4);

static void sizes_number(Ctx& c)
{
	static const int R[] = {10, 0, 2, 16, 8, 36, 3, 7};
	int radix = R[c.choose(8)], zeros = size_of(c, c.param("n", 70), "bign"), what = c.choose(6), sign = c.choose(3), how = c.choose(2);
	S digits = what == 0 ? S("") : what == 1 ? S("1") : what == 2 ? to_radix(0x7FFFFFFF, radix ? radix : 8) : what == 3 ? to_radix(0x80000000ull, radix ? radix : 8) : what == 4 ? S(zeros, '1') : S("1x");
	S blanks; for (int i = 0; i < zeros; i++) blanks += i % 3 ? " " : "\t";
	for (int form = 0; form < 6; form++) {
		S z(zeros, '0'), sg = sign == 0 ? "" : sign == 1 ? "-" : "+";
		S m = form == 0 ? sg + z + digits : form == 1 ? blanks + sg + digits : form == 2 ? sg + blanks + digits : form == 3 ? sg + digits + blanks : form == 4 ? sg + digits + blanks + "!" : sg + (radix == 2 ? "0b" : radix == 16 ? "0x" : "") + z + digits + blanks;
		c.setkey("%s radix %d", show(m).c_str(), radix);
		Held h; make(h, m, how, "17"); const StrVal v = h.v;
		check_number(c, v, m, radix);
		c.state(mc::hstr(m, radix*2+how));
	}
	c.cases(6); c.note("radix %d, %d zeros or blanks, digits %d, sign %d\n", radix, zeros, what, sign);
}
MC_CONFIG(sizes_number, "number_sizes", sizes_number, 4);

static void sizes_json(Ctx& c)
{
	static const char* IN[] = {"\"", "\\", "\n", "\x01", "/", SM, EA, "\xE2\x80\xA8"};
	int n = size_of(c, c.param("n", 70), "bign"), kind = c.choose(NPAT), in = c.choose(8), every = c.choose(5), how = c.choose(3);
	S m; for (int i = 0; i < n; i++) { bool put = every == 0 ? i == 0 : every == 1 ? i == n-1 : every == 2 ? i == n/2 : every == 3 ? i % 7 == 6 : true; m += put ? S(IN[in]) : char_at(kind, i); }
	c.setkey("n %d kind %d in %d every %d how %d", n, kind, in, every, how); c.note("%d characters of kind %d with %s (%d) made in way %d\n", n, kind, show(IN[in]).c_str(), every, how);
	Held h; make(h, m, how); StrVal v = h.v, keep = v;
	check_json(c, v, m);
	S js = bytes_of(v.asJSON());
	v.toJSON(); same(c, v, js, "toJSON"); same_nul(c, v, js, "toJSON"); same(c, keep, m, "the copy"); same(c, h.v, m, "the original");
	c.state(mc::hstr(m, how+1));
}
MC_CONFIG(sizes_json, "json_sizes", sizes_json, 4);

static void sizes_transform(Ctx& c)
{
	int n = size_of(c, c.param("n", 40), "bign"), kind = c.choose(NPAT), how = c.choose(3), what = c.choose(8), after = what < 3 ? -1 : (int[]){-1, 0, n/2, n-1}[c.choose(4)];
	S m = run_of(kind, n), want; Chars ch = ref_chars(m);
	if (what >= 1 && what < 3) { S t; for (int i = 0; i < n; i++) t += i % 5 == 3 ? S("\xC8\xBA") : i % 5 == 1 ? S("\xE2\xB1\xA5") : char_at(kind, i); m = t; ch = ref_chars(m); }
	c.setkey("n %d kind %d what %d after %d how %d", n, kind, what, after, how); c.note("%d characters of kind %d transformed in way %d after %d, made in way %d\n", n, kind, what, after, how);
	Held h; make(h, m, how); StrVal v = h.v, keep = v;
	auto o = ref_offsets(m);
	switch (what) {
	case 0: { std::vector<StrVal> e; StringArray a; for (int i = 0; i < n && i < 3000; i++) { S t = char_at(kind, i); StrVal x(t.data(), t.size()); if (i % 3 == 2) x = v.substr(i, 1); a.append(x); if (i) want += "," EA; want += i % 3 == 2 ? m.substr(o[i], o[i+1]-o[i]) : t; } v = a.join("," EA); break; }
	case 1: v.toLower(); want = map_chars(m, UCS4ToLower); break;
	case 2: v.toUpper(); want = map_chars(m, UCS4ToUpper); break;
	default: {
		int at = after+1, lag = 0;
		want = m.substr(0, o[std::min(at, n)]);
		v.transform([&](const char*& cp, const char* ep) -> StrVal {
			if ((size_t)(ep-cp) != m.size()-o[at] || memcmp(cp, m.data()+o[at], std::min(ep-cp, (std::ptrdiff_t)40))) c.fail("the callback is shown %d bytes at character %d", (int)(ep-cp), at);
			int take = what == 3 ? 1 : what == 4 ? 3 : what == 5 ? 1 : what == 6 ? 1+lag++ % 9 : n;
			take = std::min(take, n-at);
			S eaten = m.substr(o[at], o[at+take]-o[at]), give = what == 3 ? eaten + eaten : what == 4 ? S("x" EU) : what == 5 ? at % 2 ? S() : eaten : what == 6 ? run_of(1, take*2) : run_of(kind, 100);
			cp += eaten.size(); at += take; want += give;
			return StrVal(give.data(), give.size());
		}, after); }
	}
	same(c, v, want, "the result"); same_nul(c, v, want, "the result"); same(c, keep, m, "the copy"); same(c, h.v, m, "the original");
	c.state(mc::hstr(want, mc::hstr(m, how)));
}
MC_CONFIG(sizes_transform, "string_sizes_transform", sizes_transform, 4);
