/*
 * C25-C28: every regular expression up to a size, on every text up to a length, against the reference
 * reading in ref_rx.h.
 */
#define MC_MAIN
#include "mc.h"
#include <cassert>
#include <climits>
#include <memory>
#include <char_encoding.h>
#include <strval.h>
#include <strregex.h>
#include "ref_utf8.h"
#include "ref_rx.h"

using mc::Ctx;

static rr::Chars chars(const std::string& s) { return ref_chars(s); }
// Run f, in which no assertion may fail
template<class F> static void asserting(Ctx& c, const std::string& re, F f)
{
	try { f(); } catch (mc_refused&) { c.fail("/%s/: an assertion failed", show(re).c_str()); }
}

struct Text { std::string bytes; rr::Chars chars; Text(const std::string& s) : bytes(s), chars(::chars(s)) {} };
static std::vector<std::string> all_texts(const std::vector<std::string>& parts, int len)
{
	std::vector<std::string> v(1, ""), last = v;
	for (int i = 0; i < len; i++) {
		std::vector<std::string> n;
		for (auto& s : last) for (auto& p : parts) n.push_back(s+p);
		v.insert(v.end(), n.begin(), n.end()); last = n;
	}
	return v;
}

struct Compiled {
	char* nfa; bool ok; int offset; std::string error, code;
	Compiled(const std::string& re, int features, int reject) : nfa(0) {
		RxCompiler rx(StrVal(re.data(), (StrValIndex)re.size()), (RxFeature)features, (RxFeature)reject);
		ok = rx.compile(nfa);
		offset = rx.errorOffset();
		if (rx.errorMessage()) error = rx.errorMessage();
		if (ok && nfa) code = nfa;
	}
	~Compiled() { delete[] nfa; }
private:
	Compiled(const Compiled&);
};

enum { SEARCH = 1, AT = 2, CAPTURES = 4, OFFSETS = 8 };
static std::string shows(const RxResult& r)
{
	if (!r.succeeded()) return "no match";
	return "[" + std::to_string(r.offset()) + "," + std::to_string(r.offset()+r.length()) + ")";
}

static void check(Ctx& c, const std::string& re, const std::vector<rr::Seq>& tree, size_t groups, const RxProgram& prog, const Text& t, int what)
{
	rr::Matcher m(t.chars);
	size_t len = t.chars.size();
	std::vector<rr::Matcher::Set> ends(len+1);
	for (size_t s = 0; s <= len; s++) ends[s] = m.alts(tree, rr::Matcher::Set(1) << s);
	StrVal text(t.bytes.data(), (StrValIndex)t.bytes.size());
	for (size_t off = 0; off <= ((what & OFFSETS) ? len : 0); off++)
		for (int at = 0; at < 2; at++) {
			if (!(what & (at ? AT : SEARCH))) continue;
			size_t s = off;
			while (!at && s < len && !ends[s]) s++;
			bool ok = ends[s] != 0;
			size_t e = 0;
			if (ok) for (size_t p = 0; p <= len; p++) if (ends[s] >> p & 1) e = p;
			const RxResult r = at ? prog.matchAt(text, off) : prog.matchAfter(text, off);
			if (r.succeeded() != ok || (ok && (r.offset() != s || r.length() != e-s)))
				c.fail("/%s/ %s %zu of %s: %s, expected %s", show(re).c_str(), at ? "at" : "after", off, show(t.bytes).c_str(), shows(r).c_str(), ok ? ("[" + std::to_string(s) + "," + std::to_string(e) + ")").c_str() : "no match");
			if (!ok) { if (r.length() != 0) c.fail("/%s/: no match of length %d", show(re).c_str(), (int)r.length()); continue; }
			if (r.capture(0) != s || r.capture(1) != e) c.fail("/%s/ on %s: capture zero is %d..%d", show(re).c_str(), show(t.bytes).c_str(), (int)r.capture(0), (int)r.capture(1));
			if (!(what & CAPTURES)) continue;
			if (r.captureMax() != (int)groups+1) c.fail("/%s/: captureMax %d", show(re).c_str(), r.captureMax());
			m.spans.assign(groups+1, rr::Matcher::Span());
			std::string got;
			for (size_t g = 1; g <= groups; g++) {
				m.spans[g].from = r.capture(2*g); m.spans[g].to = r.capture(2*g+1);
				got += " " + std::to_string(g) + ":[" + std::to_string(m.spans[g].from) + "," + std::to_string(m.spans[g].to) + ")";
			}
			if (groups && !m.coherent(tree, s, e))
				c.fail("/%s/ %s %zu of %s: captures%s are not those of a match [%zu,%zu)", show(re).c_str(), at ? "at" : "after", off, show(t.bytes).c_str(), got.c_str(), s, e);
			const RxResult again = at ? prog.matchAt(text, off) : prog.matchAfter(text, off);
			for (size_t g = 0; g < 2*(groups+1); g++) if (again.capture(g) != r.capture(g)) c.fail("/%s/ on %s: a second match captured differently", show(re).c_str(), show(t.bytes).c_str());
		}
}

// Compile, and compare with what the reference makes of it. True if there is a program to run, and its meaning is known
static bool compiled(Ctx& c, const std::string& re, int features, int reject, std::vector<rr::Seq>& tree, rr::Parser& p, const Compiled& x)
{
	p.parse(tree);
	if (x.ok && !x.nfa) c.fail("/%s/: compiled to nothing", show(re).c_str());
	if (!x.ok && x.nfa) c.fail("/%s/: failed with a program", show(re).c_str());
	if (x.ok && !x.error.empty()) c.fail("/%s/: compiled with error %s", show(re).c_str(), x.error.c_str());
	if (!x.ok && x.error.empty()) c.fail("/%s/: failed without an error", show(re).c_str());
	if (!x.ok && (x.offset < 0 || x.offset > (int)p.p.size())) c.fail("/%s/: error at offset %d", show(re).c_str(), x.offset);
	if (p.undef) return false;
	if (x.ok == p.bad) c.fail("/%s/ features %x less %x: %s%s, expected %s", show(re).c_str(), features, reject, x.ok ? "compiled" : "failed: ", x.error.c_str(), p.bad ? "an error" : "success");
	return x.ok;
}

static const char* SETS[][24] = {
	{ "a", "b", ".", "[ab]", "[^a]", "?", "*", "+", "{2}", "{1,2}", "{0,2}", "{2,}", "|", "(", ")", "^", "$", "(?!", "\n", 0 },	// 0 everything
	{ "a", "b", "?", "*", "|", "(", ")", 0 },			// 1 nested groups
	{ "a", "b", "{2}", "{1,3}", "{2,}", "{,2}", "(", ")", "|", 0 },	// 2 counts
	{ "a", ".", "*", "|", "^", "$", "(?!", ")", "(", 0 },		// 3 anchors and look-ahead
	{ "a", "b", "(?<x>", "(?<y>", "(", ")", "|", "*", "?", "{2}", 0 },	// 4 captures
	{ "a", "b", "(?<x>", ")", "|", "*", "(?!", "{1,2}", "+", 0 },	// 5 captures and look-ahead
	{ "a", "\xC3\xA9", "\\s", "\\d", "\\h", "[^\xC3\xA9]", "[a-f1]", "*", "|", ".", "\\xe9", "\\u00E9", "\\n", "\\141", "\\p{d}", 0 },	// 6 characters
	{ "a", "b", "{2}", "{1,3}", "(", ")", 0 },			// 7 nested counts
};
static std::vector<Text>& texts(int kind, int len)
{
	static std::map<int, std::vector<Text>> M;
	std::vector<Text>& v = M[kind*100+len];
	if (v.empty()) {
		std::vector<std::string> parts;
		if (kind == 0) parts = { "a", "b" };
		if (kind == 1) parts = { "a", "b", "\n" };
		if (kind == 2) parts = { "a", "\xC3\xA9", "1", "\xD9\xA0", " ", "f", "g" };
		if (kind == 3) parts = { "a" };
		for (auto& s : all_texts(parts, len)) v.push_back(Text(s));
		if (kind == 3) { std::vector<Text> w; for (auto& t : v) { w.push_back(t); w.push_back(Text(t.bytes+"b")); } v = w; }
	}
	return v;
}

static void expressions(Ctx& c)
{
	const char** set = SETS[c.param("set", 0)];
	int max = c.param("tokens", 4), what = c.param("mode", SEARCH|AT|CAPTURES|OFFSETS), features = c.param("features", rr::All), n = 0;
	while (set[n]) n++;
	std::string re; int depth = 0;
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;
		if (*set[k] == '(') depth++;
		if (*set[k] == ')' && --depth < 0) c.prune();
		if (depth > max-1-i) c.prune();
		re += set[k];
	}
	if (depth) c.prune();
	c.setkey("%s", re.c_str());
	c.note("/%s/\n", re.c_str());
	rr::Chars rc = chars(re);
	rr::Parser p(rc, features, 0);
	std::vector<rr::Seq> tree;
	p.parse(tree);
	if (p.bad || p.undef) c.prune();
	tree.clear(); rr::Parser q(rc, features, 0);
	std::vector<Text>& T = texts(c.param("texts", 0), c.param("text", 3));
	asserting(c, re, [&]{
		Compiled x(re, features, 0);
		if (!compiled(c, re, features, 0, tree, q, x)) return;
		std::unique_ptr<char[]> copy(new char[x.code.size()+1]);	// A program is a C string
		strcpy(copy.get(), x.code.c_str());
		RxProgram prog(copy.get());
		for (size_t g = 0; g < q.names.size(); g++) {
			StrVal name = prog.group_name(g+1);
			if (chars(std::string(name.asUTF8())) != q.names[g]) c.fail("/%s/: group %zu is called %s", show(re).c_str(), g+1, name.asUTF8());
		}
		if (prog.maxCapture() != (int)q.names.size()+1) c.fail("/%s/: maxCapture %d", show(re).c_str(), prog.maxCapture());
		for (auto& t : T) check(c, re, tree, q.names.size(), prog, t, what);
	});
	c.cases(T.size());
	c.state(mc::mix(7, std::hash<std::string>()(re)));
}
MC_CONFIG(rxe, "rx_expressions", expressions, 3);

/* What the compiler makes of any string, in a buffer of just its size; and if it compiles, no text makes it go wrong */
static void any_string(Ctx& c)
{
	static const char* SETS2[] = { "a()|*{,2}", "a[]^-\\?(.", "(?<a>:!)|", "a\\x1u0 *)", "\\p{s}+d[", " #\n(a)*|{", "{3,}0 -1\n", "\t\r #\nab", " a*[]\\#^" };
	const char* set = SETS2[c.param("set", 0)];
	int n = strlen(set), max = c.param("len", 5), features = c.param("features", rr::All), reject = c.param("reject", 0);
	std::string re, pre = c.param("prefix", 0) ? "a" : "";
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;
		re += set[k];
	}
	re = pre+re;
	c.setkey("%s", re.c_str());
	c.note("/%s/\n", show(re).c_str());
	static std::vector<Text> TX;
	if (TX.empty()) for (auto t : { "", "a", "aa", "a(", "ba2", "[x1]{}", "\xC3\xA9""a\n a", "\x01\n10 " }) TX.push_back(Text(t));
	TX.push_back(Text(std::string("a\0""a", 3)));
	rr::Chars rc = chars(re);
	rr::Parser q(rc, features, reject);
	std::vector<rr::Seq> tree;
	asserting(c, re, [&]{
		Compiled x(re, features, reject), y(re, features, reject);
		if (x.ok != y.ok || x.code != y.code || x.error != y.error) c.fail("/%s/: compiled differently a second time", show(re).c_str());
		bool defined = compiled(c, re, features, reject, tree, q, x);
		if (!x.ok && x.offset < (int)rc.size()) {	// What follows an error makes no difference to it
			static const char* FINAL[] = { "Repeating a repetition is disallowed", "Illegal group type", "Rejected feature", "Too many closing parentheses", "Duplicate name" };
			for (auto f : FINAL) if (x.error == f)
				for (auto more : { "(?&", ")", "*", "[", "a{3,2}" }) {
					Compiled z(re+more, features, reject);
					if (z.ok || z.error != x.error || z.offset != x.offset) c.fail("/%s/: %s at %d, but with %s following, %s at %d", show(re).c_str(), x.error.c_str(), x.offset, more, z.error.c_str(), z.offset);
				}
		}
		if (!x.ok) return;
		std::unique_ptr<char[]> copy(new char[x.code.size()+1]);
		strcpy(copy.get(), x.code.c_str());
		RxProgram prog(copy.get());
		for (auto& t : TX)
			if (defined) check(c, re, tree, q.names.size(), prog, t, SEARCH|AT);
			else {
				StrVal text(t.bytes.data(), (StrValIndex)t.bytes.size());
				const RxResult r = prog.matchAfter(text);
				if (r.succeeded() && r.offset()+r.length() > t.chars.size()) c.fail("/%s/ on %s: matched %s", show(re).c_str(), show(t.bytes).c_str(), shows(r).c_str());
			}
	});
	TX.pop_back();
	c.cases(TX.size()+1);
	c.state(mc::mix(8, std::hash<std::string>()(re)));
}
MC_CONFIG(rxa, "rx_any_string", any_string, 3);

/* Each selection of features, on expressions that use them */
static void features(Ctx& c)
{
	static const char* TOKENS[] = { "a", "b", "\\n", "\\d", "\\101", "\\x41", "\\u41", "\\p{d}", "[ab]", "?", "*", "+", "{2}", "|", "(", ")",
		"(?<n>", "(?:", "(?!", "^", "$", ".", " ", 0 };
	static const int F[] = { 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x40000, 0x80000,
		rr::AnyIsQuest, rr::StarIsAny, rr::Extended };
	const int NF = 21;
	int n = 0, max = c.param("tokens", 2);
	while (TOKENS[n]) n++;
	int kind = c.choose(6), on = rr::All, reject = 0;
	if (kind < 4) {
		int f = F[c.choose(NF)];
		if (kind == 0) on ^= f;			// One changed
		if (kind == 1) reject = f;		// One rejected
		if (kind == 2) on = f;			// Just one
		if (kind == 3) { on = f; reject = rr::All & ~f; }	// One, and all others rejected
	}
	if (kind == 4) {					// Two changed, or one changed and one rejected
		int a = c.choose(NF), b = c.choose(NF);
		if (a == b) c.prune();
		if (a < b) on ^= F[a] | F[b]; else { on ^= F[a]; reject = F[b]; }
	}
	if (kind == 5) on |= rr::AnyIsQuest | rr::StarIsAny | rr::Extended;
	std::string re;
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;
		re += TOKENS[k];
	}
	c.setkey("%s %x %x", re.c_str(), on, reject);
	c.note("/%s/ features %x, reject %x\n", re.c_str(), on, reject);
	rr::Chars rc = chars(re);
	rr::Parser q(rc, on, reject);
	std::vector<rr::Seq> tree;
	static std::vector<Text> TX;
	if (TX.empty()) for (auto t : { "", "a", "ba", "aab", "A", "\n", "1", "n", "d", "?", "*a", "a{2}", "(a)", "[ab]", "^a$", "a+", "b|", "101", "x41", "u41", ".", " ", "a b", "(?<n>a", "(?:b)", "p{d}" }) TX.push_back(Text(t));
	asserting(c, re, [&]{
		Compiled x(re, on, reject);
		if (!compiled(c, re, on, reject, tree, q, x)) return;
		RxProgram prog(x.nfa);
		for (auto& t : TX) check(c, re, tree, q.names.size(), prog, t, SEARCH);
	});
	c.cases(TX.size());
	c.outcome(q.bad ? 1 : q.undef ? 2 : 3);
	c.state(mc::mix(9, mc::mix(std::hash<std::string>()(re), mc::mix(on, reject))));
}
MC_CONFIG(rxf, "rx_features", features, 3);

/* Expressions around a sequence of every length: the offsets in their programs take every size, at every boundary */
static void sizes(Ctx& c)
{
	struct Frame { const char* re; const char* text; int start, end; };	// Counting 10000 for each sequence; -1 for no match
	static const Frame FRAMES[] = {
		{ "@", "a@b", 1, 10001 }, { "(@)b", "a@b", 1, 10002 }, { "(?<q>@)b", "a@b", 1, 10002 }, { "(@|b)b", "a@b", 1, 10002 }, { "(b|@)c", "@c", 0, 10001 },
		{ "(b|@|c)d", "@d", 0, 10001 }, { "(@)*b", "@@b", 0, 20001 }, { "(@)+b", "@@b", 0, 20001 }, { "a(@)?b", "@a@b", 10000, 20002 }, { "(@){2,3}b", "@@b", 0, 20001 },
		{ "(@){,3}b", "@@b", 0, 20001 }, { "a(?!@c)@b", "@a@b", 10000, 20002 }, { "(?!b)@c", "@c", 0, 10001 }, { "(a|@|(b|@)*|c)d", "@@d", 0, 20001 },
		{ "(?<p>a|(?<q>@))*d", "a@ad", 0, 10003 }, { "@a@|b@", "b@", 0, 10001 }, { "((@)*|b)*c", "@b@c", 0, 20002 }, { "(a|@b)*(c|@d)*e", "@b@de", 0, 20003 },
		{ "[^@]b", "@ab", 10000, 10002 }, { "(?<@z>a)*", "aa@", 0, 2 }, { "(a|(b|@)|c|d)*e", "@@e", 0, 20001 },
	};
	const int NFR = sizeof(FRAMES)/sizeof(*FRAMES);
	int from = c.param("from", 0), count = c.param("count", 64), wide = c.param("wide", 0), at = c.param("at", 0);
	int len = from + c.choose(count);
	const Frame& f = FRAMES[c.choose(NFR)];
	std::string seq, re, text;
	for (int i = 0; i < len; i++) seq += wide == 2 ? (i & 1 ? "\xE2\x82\xAC" : "x") : wide ? "\xE2\x82\xAC" : "x";
	for (const char* p = f.re; *p; p++) if (*p == '@') re += seq; else re += *p;
	for (const char* p = f.text; *p; p++) if (*p == '@') text += seq; else text += *p;
	c.setkey("%s %d", f.re, len);
	c.note("/%s/ on %s, length %d\n", f.re, f.text, len);
	if (len == 0 && (!strcmp(f.re, "[^@]b") || !strcmp(f.re, "@") || strstr(f.re, "!@"))) { c.cases(1); return; }	// Means something else
	asserting(c, f.re, [&]{
		char* nfa = 0;
		RxCompiler rx(StrVal(re.data(), (StrValIndex)re.size()));
		if (!rx.compile(nfa)) { c.fail("/%s/ of length %d does not compile: %s", f.re, len, rx.errorMessage()); return; }
		RxProgram prog(nfa, true);
		StrVal t(text.data(), (StrValIndex)text.size());
		int start = f.start/10000*len + f.start%10000, end = f.end/10000*len + f.end%10000;
		const RxResult r = at ? prog.matchAt(t, start) : prog.matchAfter(t);
		if (!r.succeeded() || (int)r.offset() != start || (int)(r.offset()+r.length()) != end) c.fail("/%s/ on %s of length %d: %s, expected [%d,%d)", f.re, f.text, len, shows(r).c_str(), start, end);
		const RxResult none = prog.matchAt(StrVal("z"), 0);
		if (none.succeeded() && none.length()) c.fail("/%s/ of length %d matches z", f.re, len);
	});
	c.cases(1);
	c.state(mc::mix(10, len*64+(&f-FRAMES)));
}
MC_CONFIG(rxs, "rx_sizes", sizes, 2);

/* Repetition counts of every size that matters, in each form */
static void counts(Ctx& c)
{
	static const char* N[] = { "", "0", "1", "2", "3", "127", "128", "253", "254", "255", "256", "300", "32768", "65535", "65536", "65537", "65538", "131073", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297",
		"18446744073709551616", "18446744073709551617", "99999999999999999999999" };
	const int NN = sizeof(N)/sizeof(*N);
	int form = c.choose(2), a = c.choose(NN), b = form ? c.choose(NN) : a, atom = c.choose(3);
	static const char* ATOMS[] = { "a", "(a)", "(?<n>a|b)" };
	std::string re = std::string(ATOMS[atom]) + "{" + N[a] + (form ? "," : "") + (form ? N[b] : "") + "}";
	double lo = *N[a] ? atof(N[a]) : 0, hi = form ? *N[b] ? atof(N[b]) : 0 : lo;
	bool nohi = form && !*N[b];
	c.setkey("%s", re.c_str());
	c.note("/%s/\n", re.c_str());
	asserting(c, re, [&]{
		Compiled x(re, rr::All, 0);
		bool bad = lo > 254 || hi > 254 || (!nohi && hi != 0 && hi < lo);
		if (!nohi && hi == 0) return;		// No meaning is documented
		if (x.ok == bad) { c.fail("/%s/: %s %s", re.c_str(), x.ok ? "compiled" : "failed", x.error.c_str()); return; }
		if (!x.ok) return;
		RxProgram prog(x.nfa);
		for (int len : { 0, 1, 2, 3, 4, 126, 127, 128, 129, 252, 253, 254, 255, 256, 300 }) {
			std::string s(len, 'a');
			const RxResult r = prog.matchAt(StrVal(s.data(), (StrValIndex)s.size()), 0);
			bool ok = len >= lo; int want = nohi || len < hi ? len : (int)hi;
			if (r.succeeded() != ok || (ok && (int)r.length() != want)) c.fail("/%s/ on %d characters: %s", re.c_str(), len, shows(r).c_str());
			if (ok && atom == 2 && want && ((int)r.capture(2) != want-1 || (int)r.capture(3) != want)) c.fail("/%s/ on %d characters: captured %d..%d", re.c_str(), len, (int)r.capture(2), (int)r.capture(3));
		}
	});
	c.cases(15);
	c.state(mc::mix(11, std::hash<std::string>()(re)));
}
MC_CONFIG(rxc, "rx_counts", counts, 2);

/* Many groups, deep groups, many alternatives */
static void limits(Ctx& c)
{
	int kind = c.choose(8), n = 1+c.choose(c.param("max", 260));
	std::string re, text;
	c.setkey("%d %d", kind, n);
	c.note("kind %d, %d\n", kind, n);
	bool bad = false;
	if (kind == 0 || kind == 1 || kind == 2) {		// Nested to a depth
		if (n > 20) c.prune();
		bad = n > 11;
		for (int i = 0; i < n; i++) re += kind == 0 ? "(" : kind == 1 ? "(?<g" + std::to_string(i) + ">" : "((?:x|y)|";
		re += "a";
		for (int i = 0; i < n; i++) re += kind == 2 ? "b?){1,2}" : ")";
		if (kind == 2) bad = n > 11 || n+1 > 11;
		text = "a";
	} else if (kind == 3) {		// Named groups
		for (int i = 0; i < n; i++) { re += "(?<g" + std::to_string(i) + ">a)"; text += "a"; }
		bad = n > 254;
	} else if (kind > 4) {		// Matching takes exponential time, if each way is tried in turn
		if (n > (kind == 5 ? 40 : 11)) c.prune();
		if (kind == 5) { re = "(a?){" + std::to_string(n) + "}a{" + std::to_string(n) + "}"; text = std::string(n, 'a'); }
		if (kind == 6) { for (int i = 0; i < n; i++) re += "("; re += "a*"; for (int i = 0; i < n; i++) re += ")*"; re += "b"; text = std::string(200, 'a') + "b"; }
		if (kind == 7) { for (int i = 0; i < n; i++) re += "(a|"; re += "a"; for (int i = 0; i < n; i++) re += "|aa)*"; re += "b"; text = std::string(200, 'a') + "b"; }
	} else {			// Alternatives
		for (int i = 0; i < n; i++) re += (i ? "|" : "") + std::string("a") + std::to_string(i) + "z";
	}
	asserting(c, re, [&]{
		Compiled x(re, rr::All, 0);
		if (x.ok == bad) { c.fail("kind %d of %d: %s %s", kind, n, x.ok ? "compiled" : "failed", x.error.c_str()); return; }
		if (x.ok ? !x.nfa || !x.error.empty() : x.nfa || x.error.empty()) c.fail("kind %d of %d: result %d, program %p, error %s", kind, n, x.ok, (void*)x.nfa, x.error.c_str());
		if (!x.ok) return;
		std::unique_ptr<char[]> copy(new char[x.code.size()+1]); strcpy(copy.get(), x.code.c_str());
		RxProgram prog(copy.get());
		int groups = kind == 1 || kind == 3 ? n : 0;
		if (prog.maxCapture() != groups+1) c.fail("kind %d of %d: maxCapture %d", kind, n, prog.maxCapture());
		for (int g = 0; g < groups; g++)
			if (std::string(prog.group_name(g+1).asUTF8()) != "g" + std::to_string(g)) c.fail("kind %d of %d: group %d is %s", kind, n, g+1, prog.group_name(g+1).asUTF8());
		for (int i = 0; i < (kind == 4 ? n : 1); i++) {
			std::string t = kind == 4 ? "a" + std::to_string(i) + "z" : text;
			const RxResult r = prog.matchAt(StrVal(t.data(), (StrValIndex)t.size()), 0);
			if (!r.succeeded() || r.offset() != 0 || r.length() != (StrValIndex)t.size()) c.fail("kind %d of %d on %s: %s", kind, n, t.c_str(), shows(r).c_str());
			for (int g = 0; g < groups; g++) {
				int s = kind == 3 ? g : 0;
				if ((int)r.capture(2*g+2) != s || (int)r.capture(2*g+3) != s+1) c.fail("kind %d of %d: group %d is %d..%d", kind, n, g+1, (int)r.capture(2*g+2), (int)r.capture(2*g+3));
			}
		}
		const RxResult r = prog.matchAfter(StrVal("q"), 0);
		if (r.succeeded()) c.fail("kind %d of %d matches q", kind, n);
	});
	c.cases(1);
	c.state(mc::mix(12, n*8+kind));
}
MC_CONFIG(rxl, "rx_limits", limits, 2);

/* Each character, escape, numeric escape and many classes, in several places, on each character */
static std::string utf8(uint32_t ch) { UTF8 b[8], *p = b; UTF8Put(p, ch); return std::string(b, p-b); }
static void atoms(Ctx& c)
{
	static const char* FRAMES[] = { "@", "b@", "@*b", "(@|b)", "(?!@).", "@{2}", "^@$", "(?<n>@)", "@@" };
	static std::vector<std::string> AT;
	static std::vector<Text> TX;
	if (TX.empty()) {
		static const uint32_t WIDE[] = { 0x80, 0xA0, 0xE9, 0x7FF, 0x800, 0x660, 0x669, 0x66A, 0x966, 0x1680, 0x2003, 0x2028, 0x3000, 0x20AC, 0xFFFD, 0xFF11, 0x1D7CE, 0x1F600, 0x10FFFF };
		std::vector<uint32_t> cs;
		for (uint32_t i = 0; i < 128; i++) cs.push_back(i);
		cs.insert(cs.end(), WIDE, WIDE+sizeof(WIDE)/sizeof(*WIDE));
		TX.push_back(Text(""));
		for (uint32_t ch : cs) { std::string u = utf8(ch); if (!ch) u = std::string(1, 0); TX.push_back(Text(u)); TX.push_back(Text("b"+u)); TX.push_back(Text(u+u+"b")); TX.push_back(Text(u+"0")); }
		for (uint32_t ch : cs) if (ch) { std::string u = utf8(ch);
			AT.push_back(u); AT.push_back("\\"+u); AT.push_back("["+u+"]"); AT.push_back("[^"+u+"]"); AT.push_back("[\\"+u+"]"); AT.push_back("[a"+u+"b]"); AT.push_back("[ -"+u+"]"); AT.push_back("["+u+"-\xE2\x82\xAC]"); AT.push_back("[^\x01-"+u+"]"); AT.push_back("[+-"+u+"z-]");
		}
		char b[16];
		for (int i = 0; i < 512; i++) { snprintf(b, 16, "\\%o", i); AT.push_back(b); snprintf(b, 16, "\\%03o", i); AT.push_back(b); }
		for (int i = 0; i < 256; i++) { snprintf(b, 16, "\\x%x", i); AT.push_back(b); snprintf(b, 16, "\\x%02X", i); AT.push_back(b); }
		for (uint32_t ch : cs) for (int w = 1; w < 6; w++) if (ch < 0x100000) { snprintf(b, 16, "\\u%0*x", w, ch); AT.push_back(b); }
		for (auto a : { "\\p{s}", "\\p{d}", "\\p{h}", "[]]", "[]a]", "[^]]", "[^]a]", "[-]", "[-a]", "[a-]", "[^-]", "[^a-]", "[\\]]", "[a\\-c]", "[a-c\\]]", "[\\^a]", "[a^]", "[a-cx-z]", "[^a-cx-z]", "[\\\\]", "[(|)]", "[{2}]", "[.*+?]", "[$]", "[[]" }) AT.push_back(a);
	}
	const int NF = sizeof(FRAMES)/sizeof(*FRAMES);
	std::string re;
	const std::string& a = AT[c.choose(AT.size())];
	const char* f = FRAMES[c.choose(NF)];
	for (; *f; f++) if (*f == '@') re += a; else re += *f;
	c.setkey("%s", re.c_str());
	c.note("/%s/\n", show(re).c_str());
	rr::Chars rc = chars(re);
	rr::Parser q(rc, rr::All, 0);
	std::vector<rr::Seq> tree;
	asserting(c, re, [&]{
		Compiled x(re, rr::All, 0);
		if (!compiled(c, re, rr::All, 0, tree, q, x)) return;
		RxProgram prog(x.nfa);
		for (auto& t : TX) check(c, re, tree, q.names.size(), prog, t, SEARCH);
	});
	c.cases(TX.size());
	c.state(mc::mix(13, std::hash<std::string>()(re)));
}
MC_CONFIG(rxat, "rx_atoms", atoms, 2);

/* Classes of every sequence of items, and long ones, on each character in question */
static void classes(Ctx& c)
{
	static const char* ITEMS[] = { "a", "5", "a-c", "\xC3\xA9", "c", "0-9", "\\]", "^", "b-\xC3\xA9", "\\-", "\xE4\xB8\x96", "\\\\", "[", "b-b" };
	static std::vector<Text> TX;
	if (TX.empty()) for (auto t : { "", "a", "b", "c", "d", "0", "5", "9", ":", "/", "\xC3\xA9", "\xC3\xA8", "\xC3\xAA", "]", "\\", "^", "-", "[", "\xE4\xB8\x96", "\xE4\xB8\x95", "`", "_" }) { TX.push_back(Text(t)); TX.push_back(Text(std::string(t)+"!")); }
	static std::vector<Text> TL;
	if (TL.empty()) for (int i = 0x21; i < 0x300; i++) TL.push_back(Text(utf8(i)));
	std::string re = c.flip() ? "[^" : "[";
	std::vector<Text>* T = &TX;
	if (c.param("long", 0)) {
		T = &TL;
		int n = c.choose(c.param("long", 0))+1, order = c.choose(4), step = 1+c.choose(2);
		for (int i = 0; i < n; i++) {
			int k = order == 0 ? i : order == 1 ? n-1-i : order == 2 ? (i & 1 ? n-1-i/2 : i/2) : (i*7) % (n % 7 ? n : n+1);
			std::string u = utf8(0x100+2*k);
			re += step == 1 ? u : u + "-" + utf8(0x100+2*k+k % 2);
		}
	} else {
		int items = std::min((int)c.param("items", 4), (int)(sizeof(ITEMS)/sizeof(*ITEMS))), max = c.param("max", 3);
		for (int i = 0; i < max; i++) { int k = c.choose(items+1); if (k == items) break; re += ITEMS[k]; }
	}
	re += "]";
	c.setkey("%s", re.c_str());
	c.note("/%s/\n", show(re).c_str());
	rr::Chars rc = chars(re);
	rr::Parser q(rc, rr::All, 0);
	std::vector<rr::Seq> tree;
	asserting(c, re, [&]{
		Compiled x(re, rr::All, 0);
		if (!compiled(c, re, rr::All, 0, tree, q, x)) return;
		RxProgram prog(x.nfa);
		for (auto& t : *T) check(c, re, tree, q.names.size(), prog, t, SEARCH);
	});
	c.cases(T->size());
	c.state(mc::mix(14, std::hash<std::string>()(re)));
}
MC_CONFIG(rxcl, "rx_classes", classes, 2);

/* Longer texts, and expressions with more alternatives, groups and repetitions in use at once */
static void longer(Ctx& c)
{
	int what = c.choose(16), n = 1+c.choose(c.param("n", 40)), v = c.choose(3);
	auto rep = [](const std::string& s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; };
	std::string re, lo = std::to_string(n), as = rep("a", n); std::vector<std::string> T;
	switch (what) {
	case 0: re = v == 0 ? "a*b" : v == 1 ? "(?<x>a*)(?<y>a*)b" : "(?<x>a+)*b"; T = { as, as+"b", "b"+as+"b" }; break;
	case 1: for (int i = 1; i <= n && i <= 12; i++) re += (i > 1 ? "|" : "") + rep(v == 1 ? "ab" : "a", i); re = v == 2 ? "(?<x>" + re + ")*c" : "(" + re + ")c"; T = { as+"c", as, rep("ab", n)+"c" }; break;
	case 2: re = (v == 0 ? "a{" : v == 1 ? "(ab){" : "(?<x>a|b){") + lo + "}"; T = { as, as+"a", rep("a", n-1), rep("ab", n), rep("ab", n/2)+"b" }; break;
	case 3: re = (v == 0 ? "a{" : v == 1 ? "(?<x>ab){" : "(a|b){") + std::to_string(n/2) + "," + lo + "}c"; T = { as+"c", as+"ac", rep("a", n/2)+"c", rep("a", n/2-(n > 1))+"c", rep("ab", n)+"c" }; break;
	case 4: re = v == 0 ? "(?<a>a)|(?<b>b)" : v == 1 ? "((?<a>a)|(?<b>b))*c" : "((?<a>a+)|(?<b>b+))*c"; T = { rep("ab", n/2), rep("aab", n/3+1)+"c", rep("b", n)+"a" }; break;
	case 5: { int d = std::min(n, 9); re = rep(v == 1 ? "(b|" : "(", d) + "a" + rep(v == 2 ? ")?" : ")", d); if (v == 0) re = "(?<x>" + re + ")+"; T = { as, "b"+as, "" }; break; }
	case 6: re = v == 0 ? "^a" : v == 1 ? "a$" : "^(?<l>a*)$"; T = { rep("b\n", n/2)+"a", rep("ab\n", n/3), rep("aa\n", n/3)+"b", rep("\n", n) }; break;
	case 7: re = v == 0 ? "(?!b)." : v == 1 ? "(?!a*b)a" : "((?!b).)*b"; T = { as+"b", rep("b", n)+"a", rep("b", n), as }; break;
	case 8: re = v == 0 ? ".*" : v == 1 ? ".*a.*" : "(?<x>.)*b"; T = { as, rep("\xC3\xA9", n)+"ab", rep("b", n), rep("b\n", n/2)+"ab" }; break;
	case 9: for (int i = 0; i < n; i++) re += std::string(v == 0 ? "a?" : v == 1 ? "[ab]?" : "(a|)"); if (v != 2) re += rep("a", n); else re = rep("a?", n); T = { as, rep("a", n-1), as+"a" }; if (what == 9 && n > 24) return; break;
	case 10: for (int i = 0; i < n; i++) re += "(?<g" + std::to_string(i) + ">" + std::string(1, 'a'+i%3) + (v == 1 ? "?" : v == 2 ? "*" : "") + ")"; if (n > 20) return; T = { rep("abc", n/3+1), rep("ac", n/2), "" }; break;
	case 11: for (int i = 0; i < n; i++) re += (i ? "|" : "") + std::string("(?<g") + std::to_string(i) + ">" + std::string(1, 'a'+i%20) + std::string(i/20, 'z') + ")"; if (v == 1) re = "(" + re + ")*!"; if (v == 2) re = "x(" + re + ")"; T = { "abcdef!", std::string("x")+(char)('a'+(n-1)%20)+std::string((n-1)/20, 'z'), "a", rep("ba", n/2)+"!" }; break;
	case 12: re = v == 0 ? "(a*b)*c" : v == 1 ? "(?<p>a|(?<q>b)*c)*d" : "((a|b)*(?<x>ab))*c"; T = { rep("aab", n/3)+"c", rep("abc", n/3)+"d", rep("ab", n/2)+"c", rep("b", n) }; break;
	case 13: re = v == 0 ? "(ab|a)(bc|c)*d" : v == 1 ? "(a|ab)(c|bcd)*" : "(?<x>a|ab|abc)+"; T = { "ab"+rep("bc", n/2)+"d", "a"+rep("bcd", n/3)+"c", rep("abcaba", n/6) }; break;
	case 14: re = v == 0 ? "[^b]+b" : v == 1 ? "[a-c]{3,}" : "(?<w>[a-z]+)( (?<v>[a-z]+))*"; T = { as, as+"b", rep("abcd", n/4), rep("ab ", n/3)+"x" }; break;
	default: re = v == 0 ? "(a{2}){3}" : v == 1 ? "((a{1,2}b){2,3}c)+" : "(?<x>(a{2,3}|b){2})*"; T = { as, rep("aababc", n/6)+"ab", rep("aabaaa", n/6) }; break;
	}
	c.setkey("expression %d of size %d, variant %d", what, n, v); c.note("/%s/\n", re.c_str());
	rr::Chars rc = chars(re); rr::Parser q(rc, rr::All, 0); std::vector<rr::Seq> tree;
	asserting(c, re, [&]{
		Compiled x(re, rr::All, 0);
		if (!compiled(c, re, rr::All, 0, tree, q, x)) return;
		RxProgram prog(x.nfa);
		for (auto& t : T) { Text tx(t); if (tx.chars.size() < 63) check(c, re, tree, q.names.size(), prog, tx, SEARCH|AT|CAPTURES|OFFSETS); }
	});
	c.cases(T.size());
	c.state(mc::mix(12, std::hash<std::string>()(re)));
}
MC_CONFIG(rxlong, "rx_longer", longer, 3);

/*
 * C30: a program is a C string: nothing else of what made it is needed to run it, and making it again makes the same.
 * Its listing walks just its instructions, and every jump in it goes to one of them.
 */
struct Open : RxCompiler {
	Open(const std::string& s) : RxCompiler(StrVal(s.data(), (StrValIndex)s.size())) {}
	StrValIndex size() const { return nfa_size; }
};
static std::string listing(const Open& rx, const char* nfa)
{
	char* buf = 0; size_t n = 0;
	FILE* was = stdout;
	fflush(stdout);
	stdout = open_memstream(&buf, &n);
	try { rx.dump(nfa); } catch (mc_refused&) { fclose(stdout); stdout = was; free(buf); throw; }
	fclose(stdout); stdout = was;
	std::string s(buf, n);
	free(buf);
	return s;
}
static void program_is_text(Ctx& c, const std::string& re)
{
	static std::vector<Text> TX;
	if (TX.empty()) { for (auto t : { "", "a", "aa", "b", "\xC3\xA9", "a\xC3\xA9""b a", "0", "aaab\n" }) TX.push_back(Text(t)); for (auto t : { std::string(1, 0), std::string("a\0", 2), std::string("\0\0a", 3), std::string("b\0\0\0a", 5) }) TX.push_back(Text(t)); }
	rr::Chars rc = chars(re);
	rr::Parser q(rc, rr::All, 0);
	std::vector<rr::Seq> tree;
	q.parse(tree);
	asserting(c, re, [&]{
		std::unique_ptr<Open> rx(new Open(re));
		char* nfa = (char*)1; char* nfa2 = (char*)1;
		bool ok = rx->compile(nfa);
		std::string error = rx->errorMessage() ? rx->errorMessage() : "";
		int offset = rx->errorOffset();
		StrValIndex size = ok ? rx->size() : 0;
		{	// Abandon a scan of it, and compile another
			int left = 2;
			rx->scanRegex([&](const RxToken&) { return --left > 0; });
			char* other = 0; Open o("(?<other>b*){2,3}\\0|c"); if (o.compile(other)) delete[] other;
		}
		bool ok2 = rx->compile(nfa2);
		if (ok2 != ok || (rx->errorMessage() ? rx->errorMessage() : "") != error || (!ok && rx->errorOffset() != offset)) c.fail("/%s/: %s, the second time %s", show(re).c_str(), ok ? "compiled" : error.c_str(), ok2 ? "compiled" : rx->errorMessage());
		if (!ok && (nfa || nfa2)) c.fail("/%s/: failed with a program", show(re).c_str());
		if (!ok) return;
		std::unique_ptr<char[]> one(nfa), two(nfa2);
		if (strlen(nfa)+1 != size) c.fail("/%s/: a program of %d bytes, as a string of %d", show(re).c_str(), (int)size, (int)strlen(nfa)+1);
		if (rx->size() != size || memcmp(nfa, nfa2, size)) c.fail("/%s/: a different program the second time", show(re).c_str());
		std::string list = listing(*rx, nfa);
		if (c.param("list", 1)) {
			std::set<int> at, to; int last = -1; bool ended = false;
			size_t p = list.find('\n');		// After the bytes
			if (p == std::string::npos) c.fail("/%s/: no listing", show(re).c_str());
			for (p++; p < list.size();) {
				int where = atoi(list.c_str()+p);
				size_t e = list.find('\n', p);
				if (e == std::string::npos) e = list.size();
				std::string line = list.substr(p, e-p);
				if (line.find("\tChar") != std::string::npos && e+2 < list.size() && list.compare(e-1, 3, "'\n'") == 0) e += 2;		// A newline itself
				p = e+1;
				if (ended) c.fail("/%s/: the listing continues after its end", show(re).c_str());
				if (where <= last) c.fail("/%s/: listed %d after %d", show(re).c_str(), where, last);
				at.insert(last = where);
				if (line.find("ERROR") != std::string::npos || line.find("Illegal") != std::string::npos || line.find("BAD") != std::string::npos) c.fail("/%s/: listed as %s", show(re).c_str(), line.c_str());
				if (line.find("Null term") != std::string::npos) { ended = true; if (where != (int)size-1) c.fail("/%s/: listed to %d of %d", show(re).c_str(), where, (int)size-1); }
				if (line.find("\tChar(") == std::string::npos && line.find("CharClass") == std::string::npos && line.find("CharProp") == std::string::npos)
					for (size_t g = line.find("->"); g != std::string::npos; g = line.find("->", g+2)) to.insert(atoi(line.c_str()+g+2));
			}
			if (!ended) c.fail("/%s/: the listing does not reach the end", show(re).c_str());
			for (int t : to) if (!at.count(t)) c.fail("/%s/: a jump to %d, where no instruction is:\n%s", show(re).c_str(), t, list.c_str());
		}
		rx.reset();				// Nothing but the string is left
		std::unique_ptr<char[]> copy(new char[strlen(nfa)+1]);
		strcpy(copy.get(), nfa);
		one.reset();
		std::vector<std::pair<StrValIndex, RxResult>> kept;
		{
			char* own = new char[strlen(copy.get())+1];
			strcpy(own, copy.get());
			RxProgram owner(own, true);		// Deletes it
			RxProgram prog(copy.get()), prog2(two.get());
			if (prog.maxCapture() != (int)q.names.size()+1) c.fail("/%s/: maxCapture %d", show(re).c_str(), prog.maxCapture());
			for (int g = 0; g <= (int)q.names.size()+1; g++) {
				rr::Chars want;
				if (g > 0 && g <= (int)q.names.size()) want = q.names[g-1];
				StrValIndex nb; StrVal name = prog.group_name(g); const char* b = name.asUTF8(nb);
				if (chars(std::string(b, nb)) != want) c.fail("/%s/: group %d is called %s", show(re).c_str(), g, show(std::string(b, nb)).c_str());
			}
			for (auto& t : TX) {
				if (!q.undef) check(c, re, tree, q.names.size(), prog, t, SEARCH);
				StrVal text(t.bytes.data(), (StrValIndex)t.bytes.size());
				const RxResult r = prog.matchAfter(text), r2 = prog2.matchAfter(text), r3 = owner.matchAfter(text);
				if (r.succeeded() != r2.succeeded() || r.succeeded() != r3.succeeded()) c.fail("/%s/ on %s: the copy answers %s, the original %s", show(re).c_str(), show(t.bytes).c_str(), shows(r).c_str(), shows(r2).c_str());
				if (r.succeeded()) for (int i = 0; i < 2*prog.maxCapture(); i++) if (r.capture(i) != r2.capture(i) || r.capture(i) != r3.capture(i)) c.fail("/%s/ on %s: the copy captures otherwise", show(re).c_str(), show(t.bytes).c_str());
				kept.push_back(std::make_pair(r.succeeded() ? r.capture(1) : 0, r));
			}
			if (strcmp(copy.get(), two.get())) c.fail("/%s/: running the program changed it", show(re).c_str());
		}
		copy.reset();
		for (auto& k : kept) if (k.second.succeeded() && k.second.capture(1) != k.first) c.fail("/%s/: a result changed when its program had gone", show(re).c_str());
	});
	c.cases(TX.size());
	c.outcome(q.bad ? 1 : q.undef ? 2 : 3);
	c.state(mc::mix(15, std::hash<std::string>()(re)));
}

static void program(Ctx& c)
{
	static const char* TOKENS[][28] = {
		{ "a", "\xC3\xA9", "[ab]", "[^\xC3\xA9]", "\\s", "\\0", "\\x0", ".", "*", "+", "?", "{2}", "{,3}", "{2,}", "|", "(", ")", "(?<x>", "(?<\xE2\x82\xAC>", "(?!", "^", "$", "[%]", "%", 0 },	// % stands for a NUL
		{ "a", "\\0", "*", "{2,}", "|", "(", "(?<x>", "(?!", ")", 0 },
		{ "%", "\\u0", "\\000", "\\x00", "a", "[%a]", "[a-%]", "[^%]", "[%-b]", "\\%", "\xC0\x80", "[a\xC0\x80]", "*", "|", 0 },
		{ "a", "(?<x>", "(?<y>", "(?<%>", ")", "|", "*", "{3}", "?", 0 },
	};
	const char** set = TOKENS[c.param("set", 0)];
	int n = 0, max = c.param("tokens", 3), times = c.param("times", 1);
	while (set[n]) n++;
	std::string re; int depth = 0;
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;
		if (*set[k] == '(') depth++;
		if (*set[k] == ')' && --depth < 0) depth = 0;
		for (int j = 0; j < times; j++) for (const char* p = set[k]; *p; p++) re += *p == '%' ? '\0' : *p;
	}
	c.setkey("%s x %d", show(re).c_str(), times);
	c.note("/%s/\n", show(re).c_str());
	program_is_text(c, re);
}
MC_CONFIG(rxp, "rx_program", program, 3);

/* Expressions of each size up to and past each limit of the compiler, and past each number that a byte holds */
static void program_limits(Ctx& c)
{
	auto rep = [](const std::string& s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; };
	int what = c.choose(12), n = c.choose(c.param("n", 264)), v = c.choose(3);
	std::string re, N = std::to_string(n);
	const std::string one = v == 0 ? "a" : v == 1 ? "\xC3\xA9" : "[ab]";
	switch (what) {
	case 0: for (int i = 0; i < n; i++) re += "(?<n" + std::to_string(i) + (v == 0 ? ">a)" : v == 1 ? ">a)?" : ">a)|"); break;
	case 1: re = "(?<" + rep(v == 0 ? "n" : v == 1 ? "\xC3\xA9" : "\xE4\xB8\x96", n) + ">a)+b?"; break;
	case 2: re = one + "{" + N + "}b?"; break;
	case 3: re = one + "{" + N + ",}b?"; break;
	case 4: re = one + "{," + N + "}b?"; break;
	case 5: re = one + "{2," + N + "}b?"; break;
	case 6: re = (v == 0 ? "(ab){" : v == 1 ? "(?<x>a|b){" : "(a?|b){") + N + "," + std::to_string(n+v) + "}c?"; break;
	case 7: re = "["; for (int i = 0; i < n; i++) re += v == 0 ? utf8(0x3000+i) : v == 1 ? utf8(0x100+2*i) : utf8(0x100+3*i) + "-" + utf8(0x100+3*i+1); re += "]*a"; break;
	case 8: { int d = n % 66; re = rep(v == 0 ? "(" : v == 1 ? "(?!" : "(a|", d) + "a" + rep(")", d) + "b*"; break; }
	case 9: for (int i = 0; i < n; i++) re += (i ? "|" : "") + one + std::string(v, 'b'); re = "(" + re + ")*"; break;
	case 10: re = v == 0 ? "(" + rep("a", n) + ")*b" : v == 1 ? rep("a", n) + "|b" : "(?<x>" + rep("a", n) + "|b)?a"; break;
	default: re = v == 0 ? rep("a", n) + "(b)*" : v == 1 ? "(a|" + rep("b", n) + "(b)*)" : "((?<x>" + rep("(a)?", n) + ")|b)*"; break;
	}
	if (what == 9 && v == 0 && n == 0) re = "()*";
	c.setkey("expression %d of size %d, variant %d", what, n, v);
	program_is_text(c, re);
}
MC_CONFIG(rxplim, "rx_program_limits", program_limits, 3);
