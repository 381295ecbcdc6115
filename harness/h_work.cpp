/*
 * C31-C33: what matching, parsing and handling values costs, in work done and in memory allocated, as texts grow.
 * The counts (work_hook.cpp) are exact and the same in every run, so nothing here depends on time.
 */
#define MC_MAIN
#include "mc.h"
#include <cassert>
#include <climits>
#include <memory>
#include <char_encoding.h>
#include <strval.h>
#include <variant.h>
#include <cowmap.h>
#include <error.h>
#include <utf8_ptr.h>
#include <strregex.h>
#include <peg.h>
#include "ref_utf8.h"
#include "ref_rx.h"
#include "ref_peg.h"

using mc::Ctx;

extern bool work_on;
extern uint64_t work_steps, work_limit;
extern long work_allocs, work_live, work_peak, work_stack;
extern char* work_base;
struct Cost { uint64_t steps; long allocs, peak, stack; };
template<class F> static Cost measure(F f)
{
	work_steps = 0; work_allocs = 0; work_live = work_peak = 0; work_limit = 400000000;
	work_base = (char*)__builtin_frame_address(0); work_stack = 0;
	work_on = true;
	f();
	work_on = false;
	Cost k = { work_steps, work_allocs, work_peak, work_stack };
	return k;
}
static std::vector<std::string> split(const std::string& w)
{
	std::vector<std::string> parts;
	for (size_t i = 0; i < w.size();) { size_t n = 1; while (i+n < w.size() && (w[i+n] & 0xC0) == 0x80) n++; parts.push_back(w.substr(i, n)); i += n; }
	return parts;
}
// n characters: those of w, over and over
static std::string repeat(const std::string& w, int n)
{
	std::string s;
	std::vector<std::string> parts = split(w);
	for (int i = 0; i < n; i++) s += parts[i % parts.size()];
	return s;
}

static int lookaheads(const std::vector<rr::Seq>& alts)
{
	int d = 0;
	for (auto& s : alts) for (auto& n : s) d = std::max(d, lookaheads(n.alts) + (n.kind == rr::Node::NLA));
	return d;
}

/* C31: matching takes time linear in the text, for each level of look-ahead one power more, and memory that does not grow */
static void rx_linear(Ctx& c)
{
	static const char* SETS[][24] = {
		{ "a", "b", ".", "[ab]", "[^a]", "?", "*", "+", "{2}", "{1,2}", "{0,3}", "{2,}", "|", "(", ")", "(?<x>", "^", "$", "(?!", 0 },
		{ "a", "b", "?", "*", "|", "(", ")", 0 },
		{ "a", "b", "{2}", "{1,3}", "{2,}", "*", "(", ")", "|", 0 },
		{ "a", "*", "(?!", "(", ")", "|", "$", 0 },
		{ "a", "b", "(?<x>", "(?<y>", ")", "|", "*", "{2}", 0 },
		{ "\xC3\xA9", "a", "*", ".", "[^\xC3\xA9]", "(", ")", "|", 0 },
	};
	static const char* WORDS[] = { "a", "b", "ab", "aab", "\xC3\xA9", "a\xC3\xA9", "a\n" };
	const char** set = SETS[c.param("set", 0)];
	int n = 0, max = c.param("tokens", 4), depth = 0, N = c.param("n", 36);
	while (set[n]) n++;
	std::string re;
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;
		if (*set[k] == '(') depth++;
		if (*set[k] == ')' && --depth < 0) c.prune();
		if (depth > max-1-i) c.prune();
		re += set[k];
	}
	if (depth) c.prune();
	rr::Chars rc = ref_chars(re);
	rr::Parser p(rc, rr::All, 0);
	std::vector<rr::Seq> tree;
	p.parse(tree);
	if (p.bad || p.undef) c.prune();
	c.setkey("%s", re.c_str());
	c.note("/%s/\n", re.c_str());
	int d = lookaheads(tree);
	char* nfa;
	RxCompiler rx(re.c_str());
	if (!rx.compile(nfa)) c.fail("/%s/: %s", re.c_str(), rx.errorMessage());
	RxProgram prog(nfa, true);
	int words = c.param("words", sizeof(WORDS)/sizeof(*WORDS));
	for (int w = 0; w < words; w++) for (int at = 0; at < 2; at++) {
		Cost k[4];
		for (int i = 0; i < 4; i++) {
			std::string t = repeat(WORDS[w], N<<i);
			StrVal text(t.c_str());
			if (i == 3 && !c.param("more", 0)) break;
			k[i] = measure([&]{ const RxResult r = at ? prog.matchAt(text) : prog.matchAfter(text); });
			if (i < 2) continue;
			uint64_t d1 = k[i-1].steps-k[i-2].steps, d2 = k[i].steps-k[i-1].steps;
			if (k[i].steps > k[i-1].steps && d2 > (d1 > k[i-1].steps ? 0 : d1)*(2ull<<d)*5/4+4000)
				c.fail("/%s/ on %d, %d and %d characters of %s: %llu, %llu and %llu steps", re.c_str(), N<<(i-2), N<<(i-1), N<<i, show(WORDS[w]).c_str(), (unsigned long long)k[i-2].steps, (unsigned long long)k[i-1].steps, (unsigned long long)k[i].steps);
			// A part of the expression might only be reached on one of the texts
			int slack = c.param("slack", 256);
			if (k[i].peak > k[i-1].peak+slack && k[i-1].peak > k[i-2].peak+slack)
				c.fail("/%s/ on %d and %d characters of %s: uses %ld and %ld bytes", re.c_str(), N<<(i-1), N<<i, show(WORDS[w]).c_str(), k[i-1].peak, k[i].peak);
			if (k[i].stack > k[i-1].stack+slack && k[i-1].stack > k[i-2].stack+slack)
				c.fail("/%s/ on %d and %d characters of %s: uses %ld and %ld bytes of stack", re.c_str(), N<<(i-1), N<<i, show(WORDS[w]).c_str(), k[i-1].stack, k[i].stack);
		}
		c.outcome(k[2].steps/1000);
	}
	c.cases(2*words);
	c.state(mc::mix(20, std::hash<std::string>()(re)));
}
MC_CONFIG(wrx, "work_rx", rx_linear, 3);

/* C32: Pegexps match and grammars parse without allocating anything */
template<class Src> struct NoCapture {
	typedef PegexpDefaultContext<PegexpDefaultMatch<PegexpState<Src>>> Cx;
	static Cost run(const char* pat, const char* text, bool search) {
		bool ok = false;
		return measure([&]{
			Src source(text);
			Cx cx;
			Pegexp<Cx> px(pat);
			typename Cx::Match m = search ? px.match(source, &cx) : px.match_here(source, &cx);
			ok = !m.is_failure();
		});
	}
};
static void pegexp_alloc(Ctx& c)
{
	static const char* SETS[][32] = {
		{ "a", "b", ".", "?", "*", "+", "&", "!", "(", ")", "|", "^", "$", "[ab]", "[^a]", "\\d", "\\u20AC", ":x", ":y:", "`a", "\xC3\xA9", 0 },
		{ "a", "b", "*", "(", ")", "|", "!", "&", ".", 0 },
	};
	const char** set = SETS[c.param("set", 0)];
	int n = 0, max = c.param("tokens", 4), N = c.param("n", 16), reps = 0;
	while (set[n]) n++;
	std::string pat;
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;
		if (strchr("*+&!", *set[k])) reps++;
		pat += set[k];
	}
	c.setkey("%s", pat.c_str());
	c.note("/%s/\n", pat.c_str());
	static const char* WORDS[] = { "a", "ab", "b\xC3\xA9", "1\n" };
	for (auto w : WORDS) for (int search = 0; search < 2; search++) {
		std::string t = repeat(w, N), t2 = repeat(w, 2*N);
		Cost k[4] = {
			NoCapture<PegexpPointerSource<const UTF8*, UCS4>>::run(pat.c_str(), t.c_str(), search),
			NoCapture<PegexpPointerSource<const UTF8*, char>>::run(pat.c_str(), t.c_str(), search),
			NoCapture<PegexpPointerSource<GuardedUTF8Ptr, UCS4>>::run(pat.c_str(), t.c_str(), search),
			NoCapture<PegexpPointerSource<const UTF8*, UCS4>>::run(pat.c_str(), t2.c_str(), search) };
		for (auto& x : k) if (x.allocs) c.fail("/%s/ on %s: allocated %ld times", pat.c_str(), show(t).c_str(), x.allocs);
		if (k[3].stack > k[0].stack+256) c.fail("/%s/ on %d and %d characters of %s: uses %ld and %ld bytes of stack", pat.c_str(), N, 2*N, show(w).c_str(), k[0].stack, k[3].stack);
		if (k[3].steps > k[0].steps*(2ull<<(reps+search))*5/4+1000) c.fail("/%s/ on %d and %d characters of %s: %llu and %llu steps", pat.c_str(), N, 2*N, show(w).c_str(), (unsigned long long)k[0].steps, (unsigned long long)k[3].steps);
	}
	c.cases(4*2*4);
	c.state(mc::mix(21, std::hash<std::string>()(pat)));
}
MC_CONFIG(wpx, "work_pegexp", pegexp_alloc, 3);

typedef Peg<> PlainPeg;
static void peg_alloc(Ctx& c)
{
	static const char* TOP[] = { "a", "b", "<r>", "<r>:x", "?", "*", "+", "!", "&", "|", "(", ")", "[ab]", ":y:", 0 };
	static const char* R[] = { "a", "b", "<r>", "<TOP>", "?", "!", "|", "(", ")", "a:x", 0 };
	std::string top, r;
	int nt = 0, nr = 0; while (TOP[nt]) nt++; while (R[nr]) nr++;
	for (int i = 0, max = c.param("TOP", 3); i < max; i++) { int k = c.choose(nt+1); if (k == nt) break; top += TOP[k]; }
	for (int i = 0, max = c.param("r", 2); i < max; i++) { int k = c.choose(nr+1); if (k == nr) break; r += R[k]; }
	c.setkey("%s %s", top.c_str(), r.c_str());
	c.note("TOP = /%s/, r = /%s/\n", top.c_str(), r.c_str());
	PlainPeg::Rule rules[] = { PlainPeg::Rule("TOP", PlainPeg::PegexpT(top.c_str())), PlainPeg::Rule("r", PlainPeg::PegexpT(r.c_str())) };
	bool recursive = strstr(r.c_str(), "<");
	long stack[2] = { 0, 0 };
	std::string many = repeat("ab", 24), more = repeat("ab", 48);
	for (auto t : { "", "a", "ab", "aaab", "aabbaabb", "b\naabb", many.c_str(), more.c_str() }) {
		if (recursive && t == many.c_str()) break;	// might take exponential time
		bool ok = false;
		Cost k = measure([&]{
			PlainPeg peg(rules, 2);
			PlainPeg::Source s(t);
			PlainPeg::Match m = peg.parse(s);
			ok = !m.is_failure();
		});
		if (k.allocs) c.fail("TOP = /%s/, r = /%s/ on %s: allocated %ld times", top.c_str(), r.c_str(), show(t).c_str(), k.allocs);
		if (t == many.c_str()) stack[0] = k.stack;
		if (t == more.c_str()) stack[1] = k.stack;
	}
	if (stack[1] > stack[0]+256) c.fail("TOP = /%s/, r = /%s/ on 24 and 48 characters of ab: uses %ld and %ld bytes of stack", top.c_str(), r.c_str(), stack[0], stack[1]);
	c.cases(6+2*!recursive);
	c.state(mc::mix(22, std::hash<std::string>()(top+" "+r)));
}
MC_CONFIG(wpeg, "work_peg", peg_alloc, 3);

/* C33: copies and parts of values share what they hold, and going through a string takes time linear in its length */
static void values(Ctx& c)
{
	static const char* WORDS[] = { "x", "\xC3\xA9", "x\xE2\x82\xAC""y", "\xF0\x9F\x98\x80", "xxxxxxxxxxxxxxx\xC3\xA9" };
	static const char* OPS[] = { "index forward", "index backward", "index a slice forward", "index a slice backward", "look at pairs", "step by seven", "find what is not there", "rfind what is not there", "find a string that is not there", "rfind a string that is not there", "find any", "rfind any", "find not", "rfind not", "take each character", "equal", "compare", "step forward and back",
		"each of a head", "each of a tail", "find a word", "to lower case", "prefix of itself", "suffix of itself", "search a string", "hash by index",
		"* copy", "* assign", "* whole substr", "* head of bytes", "* pass", "* in variant", "* copy of variant", "* from variant", "* length", "* error copies", 0 };
	int no = 0; while (OPS[no]) no++;
	int op = c.choose(no), w = c.choose(5), N = 20+c.choose(c.param("sizes", 8))*c.param("step", 45), part = c.choose(3);
	const char* what = OPS[op];
	c.setkey("%s, word %d, part %d, %d", what, w, part, N);
	if (N > 40) N /= split(WORDS[w]).size();
	c.note("%s of %s x %d, part %d\n", what, show(WORDS[w]).c_str(), N, part);
	auto is = [&](const char* n) { return !strcmp(what, n); };
	Cost k[3]; bool skip = false;
	for (int i = 0; i < 3 && !skip; i++) {
		int n = N*split(WORDS[w]).size()<<i;
		std::string bytes_ = repeat(WORDS[w], part == 2 ? n+n/2 : n);
		StrVal whole(bytes_.c_str());
		StrVal s = part == 0 ? whole : part == 1 ? StrVal(bytes_.c_str(), (StrValIndex)bytes_.size()) : whole.substr(n/4, n);
		int len = s.length();
		if (len != n) c.fail("length %d of %d", len, n);
		StrVal other(bytes_.c_str()); if (part == 2) other = other.substr(n/4, n);
		(void)other.length();
		UCS4 last = s[len-1], first = s[0];
		StrVal lastc(last), absent = s.substr(0, 3)+"#", all(WORDS[w]);
		StrVal word = s.substr(0, 5 < n ? 5 : n);
		volatile uint64_t sink = 0;
		Variant v(s);
		Error* err = 0;
		k[i] = measure([&]{
			if (is("index forward")) for (int j = 0; j < len; j++) sink += s[j];
			else if (is("index backward")) for (int j = len; j-- > 0;) sink += s[j];
			else if (is("index a slice forward")) { StrVal t = s.substr(len/3); for (int j = 0; j < (int)t.length(); j++) sink += t[j]; }
			else if (is("index a slice backward")) { StrVal t = s.substr(len/3, len/2); for (int j = t.length(); j-- > 0;) sink += t[j]; }
			else if (is("look at pairs")) for (int j = 1; j < len; j++) sink += s[j]-s[j-1];
			else if (is("step by seven")) for (int j = 0; j < len; j += 7) sink += s[j];
			else if (is("find what is not there")) sink += s.find('#');
			else if (is("rfind what is not there")) sink += s.rfind('#');
			else if (is("find a string that is not there")) sink += s.find(absent);
			else if (is("rfind a string that is not there")) sink += s.rfind(absent);
			else if (is("find any")) sink += s.findAny("#+%");
			else if (is("rfind any")) sink += s.rfindAny("#+%");
			else if (is("find not")) sink += s.findNot(all);
			else if (is("rfind not")) sink += s.rfindNot(all);
			else if (is("take each character")) for (int j = 0; j < len; j++) { StrVal t = s.substr(j, 1); sink += t.length(); }
			else if (is("equal")) sink += s == other;
			else if (is("compare")) sink += s.compare(other);
			else if (is("step forward and back")) for (int j = 0; j+3 < len; j += 2) { sink += s[j+3]; sink += s[j]; }
			else if (is("each of a head")) { StrVal t = s.head(len*2/3); for (int j = 0; j < (int)t.length(); j++) sink += t[j]; }
			else if (is("each of a tail")) { StrVal t = s.tail(len*2/3); for (int j = t.length(); j-- > 0;) sink += t[j]; }
			else if (is("find a word")) sink += s.find(word);
			else if (is("to lower case")) { StrVal t = s.asLower(); sink += t.length(); }
			else if (is("prefix of itself")) { StrVal t = s.shorter(1); sink += s.compare(t); }
			else if (is("suffix of itself")) { StrVal t = s.tail(len-1); sink += s.rfind(t); }
			else if (is("search a string")) sink += s.find(lastc);
			else if (is("hash by index")) { uint64_t h = 0; StrVal t(s); for (int j = 0; j < len; j++) h = h*31+t[j]; sink += h; }
			else if (is("* copy")) { StrVal t(s); StrVal u(t); sink += u.isEmpty(); }
			else if (is("* assign")) { StrVal t; t = s; sink += t.isEmpty(); }
			else if (is("* whole substr")) { StrVal t = s.substr(0); sink += t.isEmpty(); t = s.substr(len/2); StrVal u = t.substr(3, len/4); sink += u.length(); }
			else if (is("* head of bytes")) { StrVal t = s.head(len/2); sink += t.length(); t = s.tail(len/2); sink += t.length(); t = s.shorter(3); sink += t.length(); }
			else if (is("* pass")) { auto f = [&](StrVal t) { sink += t.length(); return t; }; StrVal u = f(f(s)); sink += u.length(); }
			else if (is("* in variant")) { Variant x(s); sink += x.type(); }
			else if (is("* copy of variant")) { Variant x(v); Variant y; y = x; sink += y.type(); }
			else if (is("* from variant")) { StrVal t = v.as_strval(); sink += t.length(); }
			else if (is("* length")) sink += s.length();
			else if (is("* error copies")) { Error e; Error f(e); f = e; sink += (int)f; }
		});
		if (*what == '*' && k[i].allocs) c.fail("%s of %d characters: allocates %ld times", what, n, k[i].allocs);
	}
	if (*what == '*') {
		for (int i = 1; i < 3; i++) if (k[i].steps > k[i-1].steps+20) c.fail("%s of %s: %llu steps for %d characters, %llu for %d", what, show(WORDS[w]).c_str(), (unsigned long long)k[i-1].steps, N<<(i-1), (unsigned long long)k[i].steps, N<<i);
	} else {
		long long d1 = k[1].steps-k[0].steps, d2 = k[2].steps-k[1].steps;
		if (d2 > (d1 < 0 ? 0 : d1)*5/2+1500) c.fail("%s of %s: %llu, %llu and %llu steps for %d, %d and %d characters", what, show(WORDS[w]).c_str(), (unsigned long long)k[0].steps, (unsigned long long)k[1].steps, (unsigned long long)k[2].steps, N, 2*N, 4*N);
	}
	c.cases(3);
	c.outcome(mc::mix(op, k[2].steps/100));
	c.state(mc::mix(23, mc::mix(op*8+w, N*4+part)));
}
MC_CONFIG(wval, "work_strings", values, 2);

// The same of arrays, maps and the Variants that hold them
template<class A, class E> static void array_op(Ctx& c, const char* kind, int op, const char* what, int N, int part, E (*make)(int))
{
	Cost k[3];
	for (int i = 0; i < 3; i++) {
		int n = N<<i, extra = part ? n/4+1 : 0;
		A whole;
		for (int j = 0; j < n+2*extra; j++) whole.append(make(j));
		A a = part ? whole.slice(extra, n) : whole;
		if (part == 2) whole = A();		// It's the only slice
		A own; for (int j = 0; j < n; j++) own.append(make(j));
		A front = a.slice(0, n/2), back = a.slice(n/2);
		const E e = make(3);
		volatile int sink = 0;
		k[i] = measure([&]{
			switch (op) {
			case 0: { A b(a), d(b); sink += d.length(); break; }
			case 1: { A b; b = a; sink += b.length(); break; }
			case 2: { auto f = [&](A x) { sink += x.length(); return x; }; A b = f(f(a)); sink += b.length(); break; }
			case 3: { A b = a.slice(n/3), d = b.slice(1, n/4); sink += d.length(); break; }
			case 4: { A b = a.head(n/2), d = a.tail(n/2), x = a.shorter(3), y = a.drop(n/3); sink += b.length()+d.length()+x.length()+y.length(); break; }
			case 5: { A b(a); b.remove(n/2); b.remove(0, 2); sink += b.length(); break; }
			case 6: { A b(a); b.pull(); b.shift(); b.shift(); sink += b.length(); break; }
			case 7: sink += a[n/2] == e; sink += a.elem_ref(n-1) == e; sink += a.last_ref() == e; break;
			case 8: own.set(n/2, e); own.set(0, e); own.elem_mut(n-1) = e; break;
			case 9: { A b = front+back; A d(front); d += back; A x(back); x.insert(0, front); sink += b.length()+d.length()+x.length(); break; }
			case 10: { A b(a); b.clear(); sink += b.isEmpty(); break; }
			case 11: sink += a.length()+a.isEmpty()+(a.asElements() != 0); break;
			}
		});
		if (k[i].allocs) c.fail("%s of %s of %d: allocates %ld times", what, kind, n, k[i].allocs);
		if (i && k[i].steps > k[i-1].steps+20) c.fail("%s of %s: %llu steps for %d elements, %llu for %d", what, kind, (unsigned long long)k[i-1].steps, n/2, (unsigned long long)k[i].steps, n);
	}
	c.outcome(mc::mix(op, k[2].steps));
}
static int an_int(int i) { return i*7; }
static StrVal a_string(int i) { return StrVal("some \xE2\x82\xAC string"); }
static Variant a_variant(int i) { return Variant(StringArray(a_string(i))); }
static bool operator==(const Variant& a, const Variant& b) { return a.type() == b.type(); }
static void map_op(Ctx& c, int op, const char* what, int N, int part)
{
	Cost k[3];
	for (int i = 0; i < 3; i++) {
		int n = N<<i;
		std::vector<StrVal> keys; std::vector<Variant> vals;
		for (int j = 0; j < n; j++) { char b[20]; snprintf(b, sizeof b, "%06d", j*37%n); keys.push_back(StrVal(b)); vals.push_back(a_variant(j)); }
		StrVariantMap map(keys.data(), vals.data(), n), own(keys.data(), vals.data(), n), shares; if (part) shares = map;
		Variant vm(map), vs(StringArray(keys.data(), n)), va(VariantArray(vals.data(), n)), to("was a string");
		const Variant& v = part == 0 ? vm : part == 1 ? vs : va;
		const StrVal& key = keys[n/2];
		volatile int sink = 0;
		k[i] = measure([&]{
			switch (op) {
			case 0: { StrVariantMap b(map), d(b); sink += d.size(); break; }
			case 1: { auto f = [&](StrVariantMap x) { sink += x.size(); return x; }; StrVariantMap b = f(f(map)); sink += b.size(); break; }
			case 2: { sink += map[key].type(); sink += map.contains(key); sink += map.find(key) == map.end(); sink += map.size(); break; }
			case 3: { Variant x(1); own.put(key, x); own.put(keys[0], x); break; }
			case 4: own.remove(key); break;
			case 5: { Variant b(v), d(b); sink += d.type(); break; }
			case 6: { auto f = [&](Variant x) { sink += x.type(); return x; }; Variant b = f(f(v)); sink += b.type(); break; }
			case 7: if (part == 0) { const StrVariantMap b = v.as_variant_map(); sink += b.size(); } else if (part == 1) { StringArray b = v.as_string_array(); sink += b.length(); } else { VariantArray b = v.as_variant_array(); sink += b.length(); } break;
			case 8: if (part == 0) { sink += Variant(map).type(); } else if (part == 1) { sink += Variant(vs.as_string_array()).type(); } else { sink += Variant(va.as_variant_array()).type(); } break;
			}
		});
		if (k[i].allocs && op != 8) c.fail("%s, part %d, of %d entries: allocates %ld times", what, part, n, k[i].allocs);
		if (i && k[i].steps > k[i-1].steps*(op == 2 || op == 3 || op == 4 ? 3 : 2)/2+100) c.fail("%s, part %d: %llu steps for %d entries, %llu for %d", what, part, (unsigned long long)k[i-1].steps, n/2, (unsigned long long)k[i].steps, n);
	}
	c.outcome(mc::mix(op, k[2].steps/20));
}
static void collections(Ctx& c)
{
	static const char* AOPS[] = { "copy", "assign", "pass", "slices", "ends", "remove from the ends", "pull and shift", "look up", "set in its own", "join neighbours", "clear", "length" };
	static const char* MOPS[] = { "copy of a map", "pass a map", "look up in a map", "put in its own map", "remove from its own map", "copy of a Variant", "pass a Variant", "get from a Variant", "make a Variant" };
	int kind = c.choose(4), op = c.choose(kind < 3 ? 12 : 9), part = c.choose(3), N = 12+c.choose(c.param("sizes", 8))*c.param("step", 21);
	const char* what = kind < 3 ? AOPS[op] : MOPS[op];
	c.setkey("kind %d, %s, part %d, %d", kind, what, part, N); c.note("kind %d, %s, part %d, %d\n", kind, what, part, N);
	switch (kind) {
	case 0: array_op<Array<int>, int>(c, "Array<int>", op, what, N, part, an_int); break;
	case 1: array_op<StringArray, StrVal>(c, "StringArray", op, what, N, part, a_string); break;
	case 2: array_op<VariantArray, Variant>(c, "VariantArray", op, what, N, part, a_variant); break;
	case 3: map_op(c, op, what, N, part); break;
	}
	c.cases(3);
	c.state(mc::mix(24, mc::mix(kind*16+op, N*4+part)));
}
MC_CONFIG(wcol, "work_collections", collections, 2);
