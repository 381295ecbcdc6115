/*
 * C34: every format over an alphabet, with arguments of the types it asks for, against the text that its
 * literal characters and its conversions make.
 */
#define MC_MAIN
#include "mc.h"
#include <cassert>
#include <memory>

typedef mc_refused Refused;

#define printf(...) ((void)0)		// must_be() announces what it refuses
#include <variant.h>
#undef printf

using mc::Ctx;
typedef std::string S;

static S bytes(const StrVal& v) { StrValIndex n; const char* p = v.asUTF8(n); return S(p, n); }
static StrVal strval(const S& s) { return StrVal(s.data(), (StrValIndex)s.size()); }
static S show(const S& s) { S r; for (unsigned char ch : s) { char b[8]; if (ch < 32 || ch > 126) snprintf(b, sizeof b, "\\x%02X", ch); else snprintf(b, sizeof b, "%c", ch); r += b; } return "\"" + r + "\""; }
static S ch(int c) { char b[8]; char* p = b; UTF8Put(p, c); return S(b, p-b); }

struct Want { bool known; S out; std::string need; };	// The arguments' types: s, d, or * for a size

// What each conversion asks for. It has no other oracle than the grammar: %[n$][size][.precision](s|d|f|g)
struct Reader {
	const std::vector<int>& f; size_t i; int seq; bool numbered, sequential, known;
	std::map<int, char> need; std::vector<std::pair<int, char>> parts;		// Arguments, or -1-c for a literal
	Reader(const std::vector<int>& f_) : f(f_), i(0), seq(0), numbered(false), sequential(false), known(true) { read(); }
	int at(size_t k) const { return k < f.size() ? f[k] : 0; }
	static bool digit(int c) { return c >= '0' && c <= '9'; }
	void want(int arg, char type, bool size) {
		if (need.count(arg) && need[arg] != type) known = false;
		need[arg] = type;
		if (!size) parts.push_back(std::make_pair(arg, type));
	}
	void count() {
		if (at(i) == '*') { i++; sequential = true; want(seq++, '*', true); return; }
		while (digit(at(i))) i++;
	}
	void read() {
		while (i < f.size()) {
			if (f[i] != '%' || i+1 == f.size()) { parts.push_back(std::make_pair(-1-f[i], 0)); i++; continue; }
			i++;
			int n = 0;
			if (digit(at(i)) && at(i) != '0' && at(i+1) == '$') { n = at(i)-'0'; i += 2; numbered = true; }
			size_t from = i;
			count();
			if (at(i) == '.') { i++; count(); }
			if (i-from > 9) { known = false; return; }
			if (i >= f.size()) { known = false; return; }		// Incomplete
			int c = f[i++];
			if (c != 's' && c != 'd' && c != 'f' && c != 'g') { known = false; return; }
			if (n) want(n-1, c == 's' ? 's' : 'd', false);
			else { sequential = true; want(seq++, c == 's' ? 's' : 'd', false); }
		}
		if (numbered && sequential) known = false;
	}
};

// Arguments of each type; the text of each
static std::pair<Variant, S> argument(char type, int k)
{
	if (type == '*') return std::make_pair(Variant(k+2), S());
	if (type == 's') switch (k % 4) {
	case 0: return std::make_pair(Variant("x"), S("x"));
	case 1: return std::make_pair(Variant(StrVal("\xC3\xA9%s\xE4\xB8\x96")), S("\xC3\xA9%s\xE4\xB8\x96"));
	case 2: return std::make_pair(Variant(StrVal("")), S(""));
	default: return std::make_pair(Variant(StrVal("abcdef").substr(2, 3)), S("cde"));
	}
	switch (k % 7) {
	case 0: return std::make_pair(Variant(42), S("42"));
	case 1: return std::make_pair(Variant(-7000000000LL), S("-7000000000"));
	case 2: return std::make_pair(Variant("q\"\n\xC3\xA9"), S("\"q\\\"\\n\xC3\xA9\""));
	case 3: return std::make_pair(Variant(0L), S("0"));
	case 4: return std::make_pair(Variant(), S("null"));
	case 5: return std::make_pair(Variant(INT32_MIN), S("-2147483648"));
	default: return std::make_pair(Variant("%d"), S("\"%d\""));
	}
}

static void check(Ctx& c, const std::vector<int>& f)
{
	S text; for (int k : f) text += ch(k);
	c.setkey("%s", show(text).c_str());
	Reader r(f);
	for (int shift = 0; shift < (int)c.param("kinds", 4); shift++) {
		int n = r.known ? 0 : 12;
		for (auto& p : r.need) if (p.first >= n) n = p.first+1;
		std::vector<std::pair<Variant, S>> args;
		VariantArray va;
		for (int k = 0; k < n; k++) {
			char t = r.need.count(k) ? r.need[k] : r.known ? 'd' : 's';
			args.push_back(argument(t, t == '*' ? k : k+shift));
			va.append(args.back().first);
		}
		const VariantArray kept(va);
		StrVal whole = strval("<" + text + ">"), format = shift % 2 ? whole.substr(1, (int)f.size()) : strval(text);
		const StrVal keptformat(format);
		S want; for (auto& p : r.parts) want += p.first < 0 ? ch(-1-p.first) : args[p.first].second;
		try {
			StrVal result = StrVal::format(format, va);
			if (r.known && bytes(result) != want) c.fail("%s: %s, not %s", show(text).c_str(), show(bytes(result)).c_str(), show(want).c_str());
			if (r.known) {
				StrValIndex chars = 0; for (unsigned char b : want) chars += (b & 0xC0) != 0x80;
				if (result.length() != chars) c.fail("%s: %d characters, not %d", show(text).c_str(), (int)result.length(), (int)chars);
			}
			result += "more"; result.insert(0, "a"); result.toUpper();
		} catch (Refused& e) {
			if (r.known) c.fail("%s: refused", show(text).c_str());
		}
		if (bytes(format) != text || bytes(whole) != "<" + text + ">") c.fail("%s: the format was changed to %s", show(text).c_str(), show(bytes(format)).c_str());
		if ((int)va.length() != n || (int)kept.length() != n) c.fail("%s: the arguments were changed", show(text).c_str());
		for (int k = 0; k < n; k++) for (const VariantArray* a : { (const VariantArray*)&va, &kept }) {
			const Variant v = (*a)[k], &w = args[k].first;
			if (v.type() != w.type() || bytes(v.as_json()) != bytes(w.as_json())) c.fail("%s: argument %d was changed", show(text).c_str(), k);
		}
	}
	c.cases(c.param("kinds", 4));
	c.outcome(r.known ? r.parts.size() : 100);
	c.state(mc::hstr(text, 34));
}

/* Every format of an alphabet */
static void formats(Ctx& c)
{
	static const int SETS[][16] = {
		{ '%', 's', 'd', '5', '.', '*', '$', '1', '2', 'a', 0xE9, 0 },
		{ '%', 's', 'd', '1', '$', 0 },
		{ '%', 'd', '*', '.', '0', 'x', 0 },
	};
	const int* set = SETS[c.param("set", 0)];
	int n = 0; while (set[n]) n++;
	std::vector<int> f;
	for (int i = 0, max = c.param("len", 5); i < max; i++) { int k = c.choose(n+1); if (k == n) break; f.push_back(set[k]); }
	check(c, f);
}
MC_CONFIG(fmt, "formats", formats, 3);

/* Every sequence of pieces: conversions and text between them */
static void pieces(Ctx& c)
{
	static const char* PIECES[] = { "%s", "%d", "%f", "%g", "a", "\xC3\xA9", "%5d", "%05s", "%.2f", "%10.3g", "%*d", "%.*s", "%*.*g", "%1$s", "%2$d", "%9$d", "%1$5d", "%2$.3s", " 100", "$", "*", ".", "d\n", "\xF0\x9F\x98\x80", 0 };
	int n = 0; while (PIECES[n]) n++;
	std::vector<int> f;
	for (int i = 0, max = c.param("pieces", 3); i < max; i++) {
		int k = c.choose(n+1); if (k == n) break;
		for (const char* p = PIECES[k]; *p;) f.push_back(UTF8Get(p));
	}
	if (c.param("trailing", 1) && c.flip()) f.push_back('%');
	check(c, f);
}
MC_CONFIG(fmtp, "format_pieces", pieces, 3);

/* Any character, as text and beside a conversion, and long formats */
static void anychar(Ctx& c)
{
	static const int STEPS[] = { 0, 1, 2, 9, 10, 0x24, 0x25, 0x2A, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF };
	int what = c.choose(6), n = c.choose(c.param("n", 300));
	std::vector<int> f;
	auto put = [&](const char* p) { while (*p) f.push_back(*p++); };
	int u = what < 3 ? (n < 200 ? n+1 : STEPS[n % (sizeof STEPS/sizeof *STEPS)]) : 0;
	if (u == '%' && what < 3) u = 'a';
	switch (what) {
	case 0: f.push_back(u); break;
	case 1: f.push_back(u); put("%s"); f.push_back(u); put("%d"); break;
	case 2: put("%d"); f.push_back(u); f.push_back(u); f.push_back('%'); break;
	case 3: for (int i = 0; i < n % 60; i++) put(i % 3 ? "%d," : "%s"); break;
	case 4: for (int i = 0; i < n; i++) f.push_back(i % 5 == 2 ? 0x20AC : 'a'+i%26); put("%s"); break;
	default: put("%s"); for (int i = 0; i < n; i++) f.push_back(i % 7 == 3 ? 0xE9 : 'b'); put("%5d%"); break;
	}
	check(c, f);
}
MC_CONFIG(fmta, "format_sizes", anychar, 2);
