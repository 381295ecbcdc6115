/*
 * C21, C22: every expression up to a length, on every text up to a length, against the reference reading
 * of the grammar in ref_peg.h.
 */
#define MC_MAIN
#include "mc.h"
#include <cassert>
#include <climits>
#include <memory>
#include <char_encoding.h>
#include <char_ptr.h>
#include <utf8_ptr.h>
#include <pegexp.h>
#include "ref_utf8.h"
#include "ref_peg.h"

using mc::Ctx;

// What each escaped property means. Beyond ASCII the answers of the character functions (C04) are used.
static bool prop_ucs4(char p, uint32_t c)
{
	if (c < 128) {
		bool d = c >= '0' && c <= '9', l = c >= 'a' && c <= 'z', u = c >= 'A' && c <= 'Z';
		switch (p) {
		case 'a': return l || u;	case 'd': return d;	case 'h': return d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
		case 'L': return l;		case 'U': return u;	case 's': return c == ' ' || c == '\t' || c == '\n' || c == '\r';
		case 'w': return l || u || d;
		}
	}
	switch (p) {
	case 'a': return UCS4IsAlphabetic(c);	case 'd': return UCS4IsDecimal(c);	case 'h': return UCS4HexDigit(c) >= 0;
	case 'L': return UCS4IsAlphabetic(c) && UCS4ToUpper(c) != c && UCS4ToLower(c) == c;
	case 'U': return UCS4IsAlphabetic(c) && UCS4ToLower(c) != c && UCS4ToUpper(c) == c;
	case 's': return ref_white(c);	case 'w': return UCS4IsAlphabetic(c) || UCS4IsDecimal(c);
	}
	return false;
}
static bool prop_byte(char p, uint32_t c) { return c < 128 && prop_ucs4(p, c); }

struct Out {
	bool ok; size_t from, to; long line, col, fline, fcol, after;
	std::vector<PegCap> caps; int bad_count;
};

// A context that keeps the captures, and notices when it is used wrongly
template<class Src> struct Recorder {
	typedef PegexpDefaultMatch<PegexpState<Src>> Match;
	typedef typename Match::State State;
	typedef Src Source;
	int capture_disabled, repetition_nesting;
	std::vector<PegCap> caps; int bad; const char* text;
	Recorder(const char* t) : capture_disabled(0), repetition_nesting(0), bad(0), text(t) {}
	int capture_count() const { return caps.size(); }
	int capture(PatternP name, int len, Match m, bool rep) {
		PegCap c = { std::string(name, len), (size_t)m.from.source.current_byte(), (size_t)m.to.source.current_byte(), rep, -1 };
		StrVal s = m.from.source.string_to(m.to.source);
		if (c.to < c.from || std::string(s.asUTF8()) != std::string(text+c.from, c.to-c.from)) bad++;
		caps.push_back(c);
		return caps.size();
	}
	void rollback_capture(int n) { if (n < 0 || n > (int)caps.size()) { bad++; return; } caps.resize(n); }
	void record_failure(PatternP op, PatternP op_end, Source at) {}
	Match match_result(State from, State to) { return Match(from, to); }
	Match match_failure(State at) { return Match(at, at); }
};

template<class Src, class Cx> static Out run_with(const char* pat, const char* text, size_t skip, bool search, Cx& cx)
{
	Src source(text);
	for (size_t i = 0; i < skip; i++) source.get_char();
	Pegexp<Cx> px(pat);
	typename Cx::Match m = search ? px.match(source, &cx) : px.match_here(source, &cx);
	Out o; o.bad_count = 0; o.from = o.to = o.line = o.col = o.fline = o.fcol = o.after = 0;
	o.ok = !m.is_failure();
	if (o.ok) {
		o.from = m.from.source.current_byte(); o.to = m.to.source.current_byte();
		o.line = m.to.source.current_line(); o.col = m.to.source.current_column();
		o.fline = m.from.source.current_line(); o.fcol = m.from.source.current_column();
		o.after = source.current_byte();
		if (m.to.source.bytes_from(m.from.source) != o.to-o.from || m.to.source - m.from.source != (off_t)(o.to-o.from)
		 || (m.from.source < m.to.source) != (o.from < o.to) || m.to.source < m.from.source || m.from.source.same(m.to.source) != (o.from == o.to)
		 || m.to.source.at_eof() != (text[o.to] == 0) || m.to.source.is_null())
			o.bad_count = 1000;
	}
	if (cx.capture_disabled != 0 || cx.repetition_nesting != 0) o.bad_count = 100;
	return o;
}
template<class Src> static Out run_plain(const char* pat, const char* text, size_t skip, bool search)
{
	PegexpDefaultContext<PegexpDefaultMatch<PegexpState<Src>>> cx;
	return run_with<Src>(pat, text, skip, search, cx);
}
template<class Src> static Out run_rec(const char* pat, const char* text, size_t skip, bool search)
{
	Recorder<Src> cx(text);
	PegCap before = { "before", 0, 0, false, -1 };	// Captures that the context has already must survive
	cx.caps.push_back(before);
	Out o = run_with<Src>(pat, text, skip, search, cx);
	if (cx.caps.empty() || !(cx.caps[0] == before)) o.bad_count += 10000; else cx.caps.erase(cx.caps.begin());
	o.caps = cx.caps; o.bad_count += cx.bad;
	return o;
}
static std::string show(const std::vector<PegCap>& v)
{
	std::string s;
	for (auto& c : v) s += c.name + "=" + std::to_string(c.from) + "-" + std::to_string(c.to) + (c.rep ? "* " : " ");
	return s;
}

typedef PegexpPointerSource<const UTF8*, UCS4> S_ucs4;
typedef PegexpPointerSource<GuardedUTF8Ptr, UCS4> S_guarded;
typedef PegexpPointerSource<const UTF8*, char> S_byte;

enum { PLAIN, REC, GUARDED, BYTE };
static const char* KIND[] = { "", " (capturing)", " (guarded pointer)", " (bytes)" };
static Out run_kind(int k, const char* pat, const char* text, size_t skip, bool search)
{
	switch (k) {
	case PLAIN:	return run_plain<S_ucs4>(pat, text, skip, search);
	case REC:	return run_rec<S_ucs4>(pat, text, skip, search);
	case GUARDED:	return run_rec<S_guarded>(pat, text, skip, search);
	default:	return run_rec<S_byte>(pat, text, skip, search);
	}
}

// Compare everything that one expression does with one text
static void check(Ctx& c, const std::string& pat, const PegSeq& seq, const PegText& t, const PegText* tb, bool captures, int kinds, bool few = false)
{
	const char* P = pat.c_str(); const char* T = t.bytes.c_str();
	for (int k = 0; k < 4; k++) {
		if (!(kinds >> k & 1)) continue;
		const PegText& tt = k == BYTE ? *tb : t;
		for (size_t skip = 0; skip <= tt.size(); skip++) {
			for (int search = 0; search < 2; search++) {
				if (search && skip > 1) continue;
				if (few && skip > 2 && skip < tt.size()-2 && skip != tt.size()/2) continue;
				PegRun r(tt, k == BYTE ? prop_byte : prop_ucs4, k == BYTE);
				size_t from = skip, to = skip;
				bool ok = search ? r.search(seq, skip, from, to) : r.seq(seq, to);
				Out o = run_kind(k, P, T, skip, search);
				if (o.ok != ok) c.fail("/%s/ on %s from %zu%s%s: %s, expected %s", P, show(t.bytes).c_str(), skip, search ? " searching" : "", KIND[k], o.ok ? "match" : "no match", ok ? "match" : "none");
				if (o.bad_count) c.fail("/%s/ on %s%s: context misused %d", P, show(t.bytes).c_str(), KIND[k], o.bad_count);
				if (!ok) continue;
				if (o.from != tt.off[from] || o.to != tt.off[to]) c.fail("/%s/ on %s from %zu%s%s: matched %zu-%zu, expected %zu-%zu", P, show(t.bytes).c_str(), skip, search ? " searching" : "", KIND[k], o.from, o.to, tt.off[from], tt.off[to]);
				if (!search && o.after != (long)tt.off[to]) c.fail("/%s/ on %s%s: source left at %ld, expected %zu", P, show(t.bytes).c_str(), KIND[k], o.after, tt.off[to]);
				if (o.line != tt.line[to] || o.col != tt.col[to] || o.fline != tt.line[from] || o.fcol != tt.col[from])
					c.fail("/%s/ on %s%s: match %ld:%ld to %ld:%ld, expected %d:%d to %d:%d", P, show(t.bytes).c_str(), KIND[k], o.fline, o.fcol, o.line, o.col, tt.line[from], tt.col[from], tt.line[to], tt.col[to]);
				if (k != PLAIN && captures && !r.unclear && !(o.caps == r.caps))
					c.fail("/%s/ on %s from %zu%s%s: captured %s, expected %s", P, show(t.bytes).c_str(), skip, search ? " searching" : "", KIND[k], show(o.caps).c_str(), show(r.caps).c_str());
			}
		}
	}
}

static std::vector<std::string> all_texts(const std::vector<std::string>& parts, int len)
{
	std::vector<std::string> v(1, ""), last = v;
	for (int i = 0; i < len; i++) {
		std::vector<std::string> n;
		for (auto& s : last) for (auto& p : parts) n.push_back(s+p);
		v.insert(v.end(), n.begin(), n.end()); last = n;
	}
	return v;
}
struct Texts { std::vector<PegText> t, tb; std::vector<PegText*> bytes; };
static Texts& texts(const std::vector<std::string>& parts, int len)
{
	static std::map<std::string, Texts> m;
	std::string key = std::to_string(len); for (auto& p : parts) key += " " + p;
	Texts& x = m[key];
	if (x.t.empty()) for (auto& s : all_texts(parts, len)) { x.t.push_back(PegText(s)); x.tb.push_back(PegText(s, true)); }
	return x;
}

/*
 * Every sequence of tokens that is a defined expression
 */
static const char* SETS[][26] = {
	// Everything at once
	{ "a", "b", ".", "?", "*", "+", "&", "!", "(", ")", "|", "^", "$", "[ab]", "\\d", ":x", ":y:", 0 },
	// Grouping, alternatives and captures
	{ "a", "b", "?", "*", "!", "(", ")", "|", ":x:", 0 },
	// Prefix operators on prefix operators
	{ "a", ".", "?", "*", "+", "&", "!", "|", "$", 0 },
	{ "a", "b", "*", "(", ")", "|", 0 },
	{ "a", "+", "!", "&", "(", ")", "|", ":x:", 0 },
	// Bytes, for a source of bytes
	{ "a", "\xC3\xA9", "\xC3", ".", "[\xA9]", "[^\xC3]", "\\xC3", "?", "*", "!", "(", ")", "|", ":x:", 0 },
};
static void tokens(Ctx& c)
{
	const char** set = SETS[c.param("set", 0)];
	int n = 0, max = c.param("tokens", 4); while (set[n]) n++;
	std::string pat; int depth = 0;
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;		// The end
		const char* t = set[k];
		if (*t == '(') depth++;
		if (*t == ')' && --depth < 0) c.prune();
		if (depth > max-1-i) c.prune();
		if (*t == ':' && i == 0) c.prune();
		pat += t;
	}
	if (depth) c.prune();
	PegParser p(pat, false); PegSeq seq;
	p.bytes = c.param("kinds", 7) == 8;
	if (!p.parse(seq)) c.prune();
	c.setkey("/%s/", show(pat).c_str());
	c.note("pattern /%s/\n", show(pat).c_str());
	static const std::vector<std::string> parts = { "a", "b", "\n", "\xC3\xA9", "1" };
	Texts& x = texts(c.param("small", 0) ? std::vector<std::string>(parts.begin(), parts.begin()+2) : parts, c.param("text", 3));
	for (size_t i = 0; i < x.t.size(); i++)
		check(c, pat, seq, x.t[i], &x.tb[i], !p.lookahead_label, c.param("kinds", 7));
	c.cases(x.t.size());
	c.state(mc::mix(7, std::hash<std::string>()(pat)));
}
MC_CONFIG(pt, "pegexp_tokens", tokens, 3);

/*
 * Every escape, class and special character, alone and under each operator, with every character
 */
static std::vector<std::string> make_atoms()
{
	std::vector<std::string> v;
	for (int ch = 1; ch < 128; ch++) v.push_back(std::string(1, ch));
	for (int ch = 1; ch < 128; ch++) v.push_back(std::string("\\") + (char)ch);
	const char* more[] = { "\\0", "\\7", "\\12", "\\60", "\\141", "\\177", "\\0601", "\\18", "\\x4", "\\x41", "\\x4g", "\\x414", "\\x{4}", "\\x{41}", "\\x{e9}", "\\xE9", "\\xe9",
		"\\u41", "\\u0041", "\\u00412", "\\u{41}", "\\u{00000041}", "\\u20AC", "\\u{20ac}", "\\u{1F600}", "\\u{10FFFF}", "\\u{00}",
		"[a]", "[abc]", "[^abc]", "[a-f]", "[^a-f]", "[a-fA-F0-9]", "[-a]", "[^-a]", "[-]", "[]", "[^]", "[\\d]", "[^\\d]", "[\\a]", "[\\h]", "[\\L]", "[\\U]", "[\\s]", "[\\w]", "[^\\w]", "[\\a\\d]", "[\\d-]", "[\\a-]", "[\\a-z]", "[x\\d-z]",
		"[\\]]", "[^\\]]", "[\\[]", "[[]", "[\\-]", "[\\\\]", "[a\\-f]", "[\\t-\\r]", "[\\n]", "[^\\n]", "[\\n-\\r]", "[\\x41-\\x43]", "[\\u00e0-\\u00ff]", "[\\u{1F600}-\\u{1F64F}]", "[^\\u00e0-\\u00ff]", "[\\101-\\103]", "[a-\\x66]", "[\\b\\e\\f]", "[\\e-\\u0020]",
		"[f-a]", "[a-a]", "[\\.]", "[.*+?]", "[|()]", "[&!$^]", "[:a]", "[a:]", "[+--]", "[ -~]", "[^ -~]", "[\\0-\\37]", "[^\\0-\\37]", "[\\y-z]", "[`-b]", "[^^]", "[a^]", "[\\^a]", "[$]", "[<>]", "[\\L\\d]", "[^\\L\\U]", "[a-c-e]", "[\\x{41}-\\x{43}]" };
	for (auto m : more) v.push_back(m);
	return v;
}
static void atoms(Ctx& c)
{
	static const std::vector<std::string> A = make_atoms();
	static const char* FRAMES[][2] = { {"",""}, {"?","b"}, {"!","."}, {"&",".a"}, {"|","|b"}, {"|b|",""}, {"*","b"}, {"(",")b"}, {"b",""}, {"","a"}, {"!*","b"}, {"?*","b"}, {"*!","a"}, {"+",":x:b"}, {"*(!",".)"}, {"|x","b|a"}, {"!(b",")."}, {"a",":y"} };
	static const size_t NF = sizeof(FRAMES)/sizeof(FRAMES[0]);
	static std::vector<PegText> T, TB;
	if (T.empty()) {
		static const uint32_t cps[] = { 0xA0, 0xAA, 0xDF, 0xE0, 0xE9, 0xC9, 0xFF, 0x17F, 0x3B1, 0x391, 0x1C5, 0x660, 0x966, 0x20AC, 0x2003, 0x3007, 0x3024, 0x4E2D, 0xFF21, 0x1F600, 0x1F64F, 0x1F650, 0x10FFFF, 0x1FFFFF, 0x7FFFFFFF, 0x80000080, 0x800000FF };
		std::vector<std::string> ch;
		for (int i = 1; i < 128; i++) if (i != 11 && i != 12) ch.push_back(std::string(1, i));	// \v and \f are white space or not
		ch.push_back("\f");
		for (auto u : cps) ch.push_back(ref_utf8(u));
		ch.push_back("\xC0\x80");
		std::vector<std::string> all(1, "");
		for (auto& s : ch) { all.push_back(s); all.push_back(s+"b"); all.push_back(s+"a"); all.push_back("b"+s); all.push_back(s+s+"b"); }
		for (auto& s : all) { T.push_back(PegText(s)); TB.push_back(PegText(s, true)); }
	}
	const std::string& a = A[c.choose(A.size())];
	int f = c.choose(NF);
	std::string pat = FRAMES[f][0] + a + FRAMES[f][1];
	PegParser p(pat, false); PegSeq seq;
	if (!p.parse(seq)) c.prune();
	c.setkey("/%s/", pat.c_str());
	c.note("pattern /%s/\n", show(pat).c_str());
	bool white = pat.find("\\s") != std::string::npos;
	bool big = pat.find("\\u") != std::string::npos || pat.find("\\x") != std::string::npos || pat.find("\\2") != std::string::npos || pat.find("\\3") != std::string::npos || pat.find("\\4") != std::string::npos;
	for (size_t i = 0; i < T.size(); i++) {
		if (white && T[i].bytes.find('\f') != std::string::npos) continue;
		bool ascii = T[i].bytes.size() == T[i].size();
		check(c, pat, seq, T[i], &TB[i], !p.lookahead_label, big || !ascii ? 7 : 15);
	}
	c.cases(T.size());
	c.state(mc::mix(8, std::hash<std::string>()(pat)));
}
MC_CONFIG(pa, "pegexp_atoms", atoms, 2);

/*
 * Every octal and hexadecimal escape, and Unicode escapes of all lengths, alone, in classes and as the ends
 * of ranges, followed by characters that might be taken for more digits
 */
static std::vector<std::string> make_escapes()
{
	std::vector<std::string> v; char b[24];
	for (int i = 0; i < 8; i++) { snprintf(b, sizeof b, "\\%o", i); v.push_back(b); }
	for (int i = 0; i < 64; i++) { snprintf(b, sizeof b, "\\%02o", i); v.push_back(b); }
	for (int i = 0; i < 512; i++) { snprintf(b, sizeof b, "\\%03o", i); v.push_back(b); }
	for (int u = 0; u < 2; u++) {
		for (int i = 0; i < 16; i++) { snprintf(b, sizeof b, u ? "\\x%X" : "\\x%x", i); v.push_back(b); snprintf(b, sizeof b, u ? "\\x{%X}" : "\\x{%x}", i); v.push_back(b); }
		for (int i = 0; i < 256; i++) { snprintf(b, sizeof b, u ? "\\x%02X" : "\\x%02x", i); v.push_back(b); snprintf(b, sizeof b, u ? "\\x{%02X}" : "\\x{%02x}", i); v.push_back(b); }
		// Each digit of a Unicode escape, in each place
		for (int d = 0; d < 8; d++) for (int n = d+1; n <= 8; n++) for (uint32_t x = 0; x < 16; x++) {
			uint32_t base = 0x00111111u & (d < 6 ? ~(0xFu << 4*d) : ~0u);
			if (n < 8) base &= (1u << 4*n)-1;
			uint32_t cp = base | x << 4*d;
			snprintf(b, sizeof b, u ? "\\u{%0*X}" : "\\u{%0*x}", n, cp); v.push_back(b);
			if (n <= 4) { snprintf(b, sizeof b, u ? "\\u%0*X" : "\\u%0*x", n, cp); v.push_back(b); }
		}
	}
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
static void escapes(Ctx& c)
{
	static const std::vector<std::string> E = make_escapes();
	static const char* FRAMES[][2] = { {"",""}, {"","0"}, {"","a"}, {"","8"}, {"","}"}, {"[","]"}, {"[","0]"}, {"[^","]"}, {"[a-","]"}, {"[","-\\xFF]"}, {"[","-\\u{10FFFF}]"}, {"?",""}, {"!","."}, {"|b|",""} };
	static const size_t NF = sizeof(FRAMES)/sizeof(FRAMES[0]);
	const std::string& e = E[c.choose(E.size())];
	int f = c.choose(NF);
	std::string pat = FRAMES[f][0] + e + FRAMES[f][1];
	PegParser p(pat, false), q(e, false); PegSeq seq, one;
	if (!p.parse(seq) || !q.parse(one)) c.prune();
	c.setkey("/%s/", pat.c_str());
	uint32_t ch = one[0].ch;
	static const char* AFTER[] = { "", "0", "a", "8", "}", "00", "a0" };
	for (int d = -1; d <= 1; d++) {
		uint32_t x = ch+d;
		if (!x || x > 0x7FFFFFFF) continue;
		for (auto a : AFTER) check(c, pat, seq, PegText(ref_utf8(x)+a), 0, true, 7);
		c.cases(7);
	}
	static const uint32_t OTHER[] = { 'a', 'b', '0', '1', 0x10, 0x11, 0x1111 };
	for (auto x : OTHER) { check(c, pat, seq, PegText(ref_utf8(x)), 0, true, 7); c.cases(1); }
	c.state(mc::mix(9, std::hash<std::string>()(pat)));
}
MC_CONFIG(pe, "pegexp_escapes", escapes, 2);

/* Classes of every sequence of items, on each character in question; skipped over, too */
static void classes(Ctx& c)
{
	static const char* ITEMS[] = { "a", "5", "a-c", "\\xE9", "\\d", "0-8", "\\]", "^", "b-\\xe9", "\\-", "\\L", "\\\\", "[" };
	static std::vector<PegText> T;
	if (T.empty()) for (auto t : { "", "a", "b", "c", "d", "0", "5", "9", ":", "/", "\xC3\xA9", "\xC3\xA8", "\xC3\xAA", "]", "\\", "^", "-", "[", "`", "_", "L", "!" }) T.push_back(PegText(t));
	int items = std::min((int)c.param("items", 4), (int)(sizeof(ITEMS)/sizeof(*ITEMS))), max = c.param("max", 3);
	std::string cl = c.flip() ? "[^" : "[";
	for (int i = 0; i < max; i++) { int k = c.choose(items+1); if (k == items) break; cl += ITEMS[k]; }
	cl += "]";
	c.setkey("/%s/", cl.c_str());
	for (auto& pat : { cl, "?" + cl + "$", "|b" + cl + "|5" }) {	// Matched, skipped, skipped in an alternate
		PegParser p(pat, false); PegSeq seq;
		if (!p.parse(seq)) c.prune();
		for (auto& t : T) check(c, pat, seq, t, 0, true, 3);
		c.cases(T.size());
	}
	c.state(mc::mix(10, std::hash<std::string>()(cl)));
}
MC_CONFIG(pcl, "pegexp_classes", classes, 2);

/*
 * Any string as an expression, in a buffer of exactly its size, with texts in such buffers: nothing is read
 * outside of them, and matching ends
 */
static void any_string(Ctx& c)
{
	static const char* SETS2[] = { "a(|)?*![\\", "ax{u-]\\[:", "a\x01<;:_)1`&+" };
	const char* set = SETS2[c.param("set", 0)];
	int n = strlen(set), max = c.param("len", 5);
	std::string pat;
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;
		pat += set[k];
	}
	c.setkey("/%s/", pat.c_str());
	c.note("pattern %s\n", show(pat).c_str());
	static const char* TX[] = { "", "a", "a(", "ab", "\xC3", "a\xE2\x82", "-]", "x{1" };
	std::unique_ptr<char[]> p(new char[pat.size()+1]); strcpy(p.get(), pat.c_str());
	for (auto t : TX) {
		std::unique_ptr<char[]> s(new char[strlen(t)+1]); strcpy(s.get(), t);
		for (int search = 0; search < 2; search++) {
			Out o = run_plain<S_ucs4>(p.get(), s.get(), 0, search);
			Out q = run_rec<S_ucs4>(p.get(), s.get(), 0, search);
			Out g = run_rec<S_guarded>(p.get(), s.get(), 0, search);
			Out b = run_plain<S_byte>(p.get(), s.get(), 0, search);
			if (o.ok != q.ok || o.from != q.from || o.to != q.to || o.ok != g.ok || o.from != g.from || o.to != g.to)
				c.fail("/%s/ on %s: the context or pointer influenced the match", pat.c_str(), show(t).c_str());
			if ((o.ok && (o.to < o.from || o.to > strlen(t))) || (b.ok && (b.to < b.from || b.to > strlen(t)))) c.fail("/%s/ on %s: matched %zu-%zu", pat.c_str(), show(t).c_str(), o.from, o.to);
		}
	}
	c.cases(8);
}
MC_CONFIG(ps, "pegexp_any_string", any_string, 3);

/*
 * Large expressions and long texts: constructs of every size to a bound, in frames where they are matched,
 * retried, captured, looked ahead to or passed over
 */
static void sizes(Ctx& c)
{
	static const char* FRAMES[][2] = { {"",""}, {"?","b$"}, {"|","|b"}, {"*","b"}, {"(","):xy"}, {"!",".b"}, {"|b|x|",":z"}, {"?(a",")b"}, {"&",":q.b"} };
	static const int NF = sizeof(FRAMES)/sizeof(*FRAMES);
	int what = c.choose(16), n = 1+c.choose(c.param("n", 40)), f = c.choose(NF);
	if (f == 8) f = 0;	// what a labelled look-ahead captures is not defined
	auto rep = [](const std::string& s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; };
	auto letters = [](int n, int from) { std::string r; for (int i = 0; i < n; i++) r += (char)('c'+(i+from)%23); return r; };
	std::string pat; std::vector<std::string> T;
	switch (what) {
	case 0: pat = "(" + letters(n, 0) + ")"; T = { letters(n, 0), letters(n-1, 0), letters(n+1, 0), letters(n-1, 0)+"?", letters(n/2, 0)+"?"+letters(n, n/2+1) }; break;
	case 1: pat = "("; for (int i = 0; i < n; i++) pat += "|" + letters(i+1, i) + "!\\q"; pat += ")"; for (int i = 0; i < n; i += 1+n/6) { T.push_back(letters(i+1, i)); T.push_back(letters(i+1, i)+"q"); } T.push_back(letters(n, n-1)); break;
	case 2: pat = rep("(", n) + "a" + rep(")", n); T = { "a", "b" }; break;
	case 3: pat = rep("(|x", n) + "|a" + rep(")", n); T = { "a", "b", "x" }; break;
	case 4: pat = "*a"; T = { rep("a", n), rep("a", n)+"c", rep("\xC3\xA9", n) + "a" }; break;
	case 5: pat = "*(ab|c|\\n)"; T = { rep("abc", n/3+1), rep("ab\n", n/3+1) + "a", rep("\n", n) }; pat = "*(|ab|c|\\n)"; break;
	case 6: pat = "*!b."; T = { rep("a", n), rep("\xE2\x82\xAC", n), rep("a\n", n/2) }; break;
	case 7: pat = "["; for (int i = 0; i < n; i++) { pat += (char)(' '+(i*3)%61); if (pat.back() == ']' || pat.back() == '\\' || pat.back() == '-' || pat.back() == '^') pat.back() = 'z'; if (i % 4 == 3) { char lo = pat.back(); if (lo < 'y') { pat += "-"; pat += (char)(lo+1); } } } pat += "]"; T = { " ", std::string(1, ' '+((n-1)*3)%61), std::string(1, ' '+(n*3)%61), "a", "~" }; break;
	case 8: pat = "+(a:" + letters(n, 0) + ":)"; T = { "a", "aa", "aaac" }; break;
	case 9: pat = "("; for (int i = 0; i < n; i++) { pat += "?a:n" + std::to_string(i) + ":"; } pat += ")"; T = { rep("a", n), rep("a", n/2), "" }; break;
	case 10: pat = rep("?", n) + "a"; T = { "a", "aa", "" }; break;
	case 11: pat = rep("!", n) + "a"; T = { "a", "b", "" }; break;
	case 12: pat = "("; for (int i = 0; i < n; i++) pat += i % 3 == 0 ? "[a-f]" : i % 3 == 1 ? "\\x61" : "?(b|c)"; pat += ")"; T = { rep("aa", n/3+1), rep("aab", n/3+1), rep("a", n) }; break;
	case 13: pat = "(" + rep("|ab|cd", n) + "|ef)"; T = { "ab", "cd", "ef", "eg" }; break;
	case 14: pat = "+(|" + rep("a", n) + "|a:x)"; T = { rep("a", n), rep("a", 2*n), rep("a", 2*n-1), rep("a", n+1) }; break;
	case 15: pat = "+(+a:y\\n)"; for (int i = 1; i <= 3; i++) { std::string t; for (int j = 0; j < n/i+1; j++) t += rep("a", 1+j*i%5) + "\n"; T.push_back(t); } break;
	}
	pat = FRAMES[f][0] + pat + FRAMES[f][1];
	PegParser p(pat, false); PegSeq seq;
	if (!p.parse(seq)) c.prune();
	c.setkey("construct %d of size %d in frame %d", what, n, f); c.note("/%s/\n", pat.c_str());
	for (auto& t : std::vector<std::string>(T)) { T.push_back(t+"b"); T.push_back("b"+t); T.push_back(rep("b", n/2) + t); }
	for (auto& t : T) { PegText x(t), xb(t, true);
		check(c, pat, seq, x, &xb, !p.lookahead_label, 7, true); }
	c.cases(T.size());
	c.state(mc::mix(11, std::hash<std::string>()(pat)));
}
MC_CONFIG(psz, "pegexp_sizes", sizes, 3);
