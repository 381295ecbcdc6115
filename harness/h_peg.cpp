/*
 * C23, C24: small grammars, all of them up to a size, on all texts up to a length, against the reference
 * evaluation of parsing expressions with rule calls.
 */
#define MC_MAIN
#include "mc.h"
#include <cassert>
#include <climits>
#include <memory>
#include <char_encoding.h>
#include <strval.h>
#include <variant.h>
#include <peg.h>
#include <peg_ast.h>
#include "ref_peg.h"

using mc::Ctx;

static bool prop(char p, uint32_t c)
{
	bool d = c >= '0' && c <= '9', l = c >= 'a' && c <= 'z', u = c >= 'A' && c <= 'Z';
	switch (p) { case 'a': return l || u; case 'd': return d; case 'w': return l || u || d; case 'L': return l; case 'U': return u; case 's': return c == ' ' || c == '\n'; case 'h': return d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
	return false;
}

// A value a parse should return
struct Val {
	char kind; std::string text; std::vector<Val> items; std::vector<std::string> keys;	// t a m
	Val(char k = 't') : kind(k) {}
	std::string show() const {
		if (kind == 't') return ::show(text);
		std::string s = kind == 'a' ? "[" : "{";
		for (size_t i = 0; i < items.size(); i++) s += (i ? ", " : "") + (kind == 'm' ? keys[i] + ": " : std::string()) + items[i].show();
		return s + (kind == 'a' ? "]" : "}");
	}
};

struct RuleDef { std::string name, pattern; std::vector<std::string> captures; PegSeq seq; };
struct Fail { std::string rule; size_t at, len; std::vector<std::string> path;
	bool operator==(const Fail& o) const { return rule == o.rule && at == o.at && path == o.path; } };

struct RefPeg {
	const std::vector<RuleDef>& rules; const PegText& t;
	std::set<std::pair<int, size_t>> active;	// Rules in progress, and where they started
	std::vector<Val> values;
	std::vector<std::string> path;
	size_t furthest; std::vector<Fail> fails;
	long fuel;
	RefPeg(const std::vector<RuleDef>& r, const PegText& x) : rules(r), t(x), furthest(0), fuel(20000) {}

	int find(const std::string& n) const { for (size_t i = 0; i < rules.size(); i++) if (rules[i].name == n) return i; return -1; }
	static bool has(const std::vector<std::string>& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
	struct Out { bool ok; Val v; };
	Out rule(int ri, size_t& pos, int look, bool root) {
		Out o; o.ok = false;
		if (--fuel < 0 || path.size() > 200) return o;
		if (!active.insert(std::make_pair(ri, pos)).second) return o;	// Left recursion
		size_t start = pos;
		const RuleDef& R = rules[ri];
		path.push_back(R.name);
		PegRun run(t, prop);
		run.look = look;
		run.call = [&](const PegNode& n, size_t& p) -> bool {
			int callee = find(n.name);
			if (callee < 0) return false;
			size_t from = p;
			Out r = rule(callee, p, run.look, false);
			if (!r.ok) return false;
			std::string label = n.labelled ? n.label : n.name;
			if (!run.look && has(R.captures, label) && !(r.v.kind == 't' && r.v.text.empty())) {
				values.push_back(r.v);
				PegCap c = { label, t.off[from], t.off[p], run.rep > 0, (int)values.size()-1 };
				run.caps.push_back(c);
			}
			return true;
		};
		run.failed = [&](const PegNode& n, size_t p) {
			if (run.look || (n.kind != PegNode::LIT && n.kind != PegNode::CLASS) || n.escape || strchr("~@#%_;<`", R.pattern[n.at])) return;
			if (p < furthest) return;
			if (p > furthest) fails.clear();
			furthest = p;
			Fail f = { R.name, n.at, n.end-n.at, path };
			for (auto& x : fails) if (x.rule == f.rule && x.at == f.at) return;
			fails.push_back(f);
		};
		o.ok = run.seq(R.seq, pos);
		if (!o.ok) pos = start;
		path.pop_back();
		active.erase(std::make_pair(ri, start));
		if (!o.ok) return o;
		// The captures that remain, under their names
		std::map<std::string, Val> m; bool any = false;
		for (auto& c : run.caps) {
			Val v('t');
			if (c.value >= 0) v = values[c.value];
			else { v.text = t.bytes.substr(c.from, c.to-c.from); if (v.text.empty()) continue; }
			any = true;
			auto i = m.find(c.name);
			if (i == m.end()) {
				if (c.rep) { Val a('a'); a.items.push_back(v); m[c.name] = a; } else m[c.name] = v;
			} else {
				if (i->second.kind != 'a') { Val a('a'); a.items.push_back(i->second); i->second = a; }
				i->second.items.push_back(v);
			}
		}
		if (any || root) { o.v = Val('m'); for (auto& p : m) { o.v.keys.push_back(p.first); o.v.items.push_back(p.second); } }
		else { o.v = Val('t'); o.v.text = t.bytes.substr(t.off[start], t.off[pos]-t.off[start]); }
		return o;
	}
};

static std::string bytes(const StrVal& s) { StrVal c(s); StrValIndex n; const char* p = c.asUTF8(n); return std::string(p, n); }
static Val got(const Variant& v)
{
	Val r;
	Variant c(v);
	if (c.type() == Variant::String) { r.kind = 't'; r.text = bytes(c.as_strval()); }
	else if (c.type() == Variant::VarArray) { r.kind = 'a'; VariantArray a = c.as_variant_array(); for (unsigned i = 0; i < a.length(); i++) r.items.push_back(got(a[i])); }
	else if (c.type() == Variant::StrVarMap) { r.kind = 'm'; StrVariantMap m = c.as_variant_map(); for (auto i = m.begin(); i != m.end(); i++) { r.keys.push_back(bytes(i->first)); r.items.push_back(got(i->second)); } }
	else { r.kind = 't'; r.text = std::string("type ") + c.type_name(); }
	return r;
}

// The library's tables for these rules, in the given order
typedef Peg<> PlainPeg;
typedef Peg<PegMemorySource, PegMatch, PegContext> AstPeg;
struct Tables {
	std::vector<PlainPeg::Rule> plain; std::vector<AstPeg::Rule> ast;
	std::vector<std::vector<const char*>> caps;
	Tables(const std::vector<RuleDef>& rules, const std::vector<int>& order) {
		caps.reserve(rules.size());
		for (int i : order) {
			const RuleDef& r = rules[i];
			plain.push_back(PlainPeg::Rule(r.name.c_str(), PlainPeg::PegexpT(r.pattern.c_str())));
			caps.push_back(std::vector<const char*>());
			for (auto& c : r.captures) caps.back().push_back(c.c_str());
			caps.back().push_back(0);
			ast.push_back(AstPeg::Rule(r.name.c_str(), AstPeg::PegexpT(r.pattern.c_str()), r.captures.empty() ? 0 : caps.back().data()));
		}
	}
};
static std::string show(const std::vector<RuleDef>& rules)
{
	std::string s;
	for (auto& r : rules) { s += r.name + " = /" + r.pattern + "/"; for (auto& c : r.captures) s += " " + c; s += "; "; }
	return s;
}
static std::string show(const std::vector<Fail>& f)
{
	std::string s;
	for (auto& x : f) { s += x.rule + "@" + std::to_string(x.at) + " from "; for (auto& p : x.path) s += p + ">"; s += "; "; }
	return s;
}

enum { PLAIN = 1, AST = 2, FAILURES = 4, VALUES = 8 };
static void check(Ctx& c, const std::vector<RuleDef>& rules, Tables& tab, const PegText& t, int what)
{
	RefPeg ref(rules, t);
	size_t end = 0;
	RefPeg::Out want = ref.rule(ref.find("TOP"), end, 0, true);
	if (ref.fuel < 0) return;		// Would take too long, in the library too
	const char* T = t.bytes.c_str();
	if (what & PLAIN) {
		PlainPeg peg(tab.plain.data(), tab.plain.size());
		PlainPeg::Source s(T);
		PlainPeg::Match m = peg.parse(s);
		if (!m.is_failure() != want.ok) c.fail("%s on %s: %s, expected %s", show(rules).c_str(), show(t.bytes).c_str(), m.is_failure() ? "failed" : "parsed", want.ok ? "parsed" : "failed");
		if (want.ok && ((size_t)s.current_byte() != t.off[end] || (size_t)m.to.source.current_byte() != t.off[end] || m.from.source.current_byte() != 0))
			c.fail("%s on %s: consumed %ld, expected %zu", show(rules).c_str(), show(t.bytes).c_str(), (long)s.current_byte(), t.off[end]);
	}
	if (what & AST) {
		AstPeg peg(tab.ast.data(), tab.ast.size());
		for (int again = 0; again < 1 + !!(what & VALUES); again++) {
			AstPeg::Source s(T);
			AstPeg::Match m = peg.parse(s);
			if (!m.is_failure() != want.ok) c.fail("%s on %s: %s with captures, expected %s", show(rules).c_str(), show(t.bytes).c_str(), m.is_failure() ? "failed" : "parsed", want.ok ? "parsed" : "failed");
			if (want.ok && (size_t)s.current_byte() != t.off[end])
				c.fail("%s on %s: consumed %ld with captures, expected %zu", show(rules).c_str(), show(t.bytes).c_str(), (long)s.current_byte(), t.off[end]);
			if (what & FAILURES) {
				std::vector<Fail> f;
				size_t far = ref.furthest; std::vector<Fail> wf = ref.fails;
				if (want.ok && end > far) { far = end; wf.clear(); }
				if (m.furthermost_success.is_null() || (size_t)m.furthermost_success.current_byte() != t.off[far])
					c.fail("%s on %s: says it reached %ld, expected %zu", show(rules).c_str(), show(t.bytes).c_str(), m.furthermost_success.is_null() ? -1L : (long)m.furthermost_success.current_byte(), t.off[far]);
				if (m.furthermost_success.current_line() != t.line[far] || m.furthermost_success.current_column() != t.col[far]) c.fail("%s on %s: reached the wrong line or column", show(rules).c_str(), show(t.bytes).c_str());
				for (unsigned i = 0; i < m.failures.length(); i++) {
					PegFailure x = m.failures[i]; Fail y; bool found = false;
					for (auto& r : rules) if (x.atom >= r.pattern.c_str() && x.atom < r.pattern.c_str()+r.pattern.size()) { y.rule = r.name; y.at = x.atom-r.pattern.c_str(); found = true; }
					if (!found) c.fail("failure outside of the rules");
					for (unsigned j = 0; j < x.path.length(); j++) y.path.push_back(x.path[j]);
					f.push_back(y);
				}
				if (!(f == wf)) c.fail("%s on %s: failures %s expected %s", show(rules).c_str(), show(t.bytes).c_str(), show(f).c_str(), show(wf).c_str());
			}
			if ((what & VALUES) && want.ok) {
				Val v = got(m.var);
				if (v.show() != want.v.show()) c.fail("%s on %s: %s, expected %s", show(rules).c_str(), show(t.bytes).c_str(), v.show().c_str(), want.v.show().c_str());
			}
		}
	}
}

static std::vector<std::string> all_texts(const std::string& parts, int len)
{
	std::vector<std::string> v(1, ""), last = v;
	for (int i = 0; i < len; i++) {
		std::vector<std::string> n;
		for (auto& s : last) for (char p : parts) n.push_back(s+p);
		v.insert(v.end(), n.begin(), n.end()); last = n;
	}
	return v;
}

// A rule's pattern of up to max tokens
static bool pattern(Ctx& c, const char** set, int max, RuleDef& r)
{
	int n = 0, depth = 0; while (set[n]) n++;
	for (int i = 0; i < max; i++) {
		int k = c.choose(n+1);
		if (k == n) break;
		if (*set[k] == '(') depth++;
		if (*set[k] == ')' && --depth < 0) return false;
		if (depth > max-1-i) return false;
		if (*set[k] == ':' && i == 0) return false;
		r.pattern += set[k];
	}
	if (depth) return false;
	PegParser p(r.pattern, true);
	return p.parse(r.seq) && !p.lookahead_label;
}

static const char* SETS[][20] = {
	{ "a", "b", "<r>", "<s>", "?", "*", "!", "|", "(", ")", 0 },
	{ "a", "b", "<r>", "<TOP>", "?", "*", "+", "&", "!", "|", "(", ")", 0 },
	{ "a", "[ab]", "<r>", "<s>", "<r>:x", "*", "?", "|", "!", "(", ")", 0 },
	{ "a", "a:x", "b:y:", "<r>", "<r>:x", "*", "|", "(", ")", 0 },
	{ "a", "b", "<r>", "<r>:x", "<r>:xy", "*", "|", "&", 0 },
	{ "a:x", "b:y:", "*", "|", "(", "):z", "!", 0 },
	{ "a", "b", "<r>", "<s>", 0 },
	{ "a", "b", "<r>", "+", "?", "|", "(", ")", 0 },
	{ "a:x", "b", "b:y", "+", "?", "|", "(", ")", "&", 0 },
};
static const char* CAPS[][6] = { { 0 }, { "r", "s", "x", "y", "z", 0 }, { "x", "y", "z", 0 }, { "xy", "r", 0 }, { "y", "x", "s", "z", 0 }, { "r", "s", 0 } };

/*
 * TOP, r and perhaps s: all patterns up to so many tokens each. cap* say which capture lists are tried.
 */
static void grammar(Ctx& c)
{
	int what = c.param("mode", PLAIN|AST|FAILURES);
	std::vector<RuleDef> rules(c.param("s", 0) ? 3 : 2);
	const char* N[] = { "TOP", "r", "s" };
	for (size_t i = 0; i < rules.size(); i++) {
		rules[i].name = N[i];
		int set = c.param(i == 0 ? "set" : i == 1 ? "rset" : "sset", 0), max = c.param(i == 2 ? "s_max" : N[i], 3);
		if (!pattern(c, SETS[set], max, rules[i])) c.prune();
	}
	if (what & VALUES) {
		// Lists of captures to try, as bits
		for (size_t i = 0; i < rules.size(); i++) {
			int lists = c.param(i == 0 ? "captop" : "cap", 2), n = 0;
			for (int b = 0; b < 6; b++) n += lists >> b & 1;
			int k = n > 1 ? c.choose(n) : 0;
			for (int b = 0; b < 6; b++) if (lists >> b & 1) if (k-- == 0) for (const char** p = CAPS[b]; *p; p++) rules[i].captures.push_back(*p);
		}
	}
	c.setkey("%s", show(rules).c_str());
	c.note("%s\n", show(rules).c_str());
	std::vector<int> order; for (size_t i = 0; i < rules.size(); i++) order.push_back(i);
	Tables tab(rules, order);
	static std::map<int, std::vector<PegText>> TX;
	std::vector<PegText>& T = TX[c.param("text", 3)];
	if (T.empty()) for (auto& s : all_texts(c.param("newline", 0) ? "a\nb" : "ab", c.param("text", 3))) T.push_back(PegText(s));
	for (auto& t : T) check(c, rules, tab, t, what);
	c.cases(T.size());
	c.state(mc::mix(5, std::hash<std::string>()(show(rules))));
}
MC_CONFIG(pg, "peg_grammars", grammar, 4);

/*
 * Every rule is found by exactly its name, whatever the other rules are called, in whatever order they are given
 */
static void names(Ctx& c)
{
	static const char* NM[] = { "a", "a1", "a_", "aa", "a1a", "A", "_", "_a", "z", "aZ", "T", "TO", "TOPS", "TOP1", "a-b", "a b", "a=", "a~" };
	const int NN = sizeof(NM)/sizeof(NM[0]);
	int count = c.param("rules", 4);
	std::vector<RuleDef> rules(1); rules[0].name = "TOP";
	int last = -1;
	for (int i = 0; i < count; i++) {
		if (last+1 >= NN) c.prune();
		int k = last+1+c.choose(NN-last-1);
		last = k;
		RuleDef r; r.name = NM[k]; r.pattern = std::string(1, '0'+i);
		rules.push_back(r);
	}
	std::string called = NM[c.choose(NN)];
	rules[0].pattern = c.flip() ? "<" + called + ">" : "|<" + called + ">:lab|x";
	std::vector<int> order; int rot = c.choose(count+1); bool rev = c.flip();
	for (size_t i = 0; i < rules.size(); i++) order.push_back(rev ? rules.size()-1-(i+rot) % rules.size() : (i+rot) % rules.size());
	for (auto& r : rules) { PegParser p(r.pattern, true); if (!p.parse(r.seq)) c.fail("bad pattern"); }
	rules[0].captures.push_back(called); rules[0].captures.push_back("lab");
	c.setkey("call of %s", called.c_str());
	c.note("%s\n", show(rules).c_str());
	Tables tab(rules, order);
	for (int i = 0; i <= count; i++) { std::string s(1, '0'+i); check(c, rules, tab, PegText(s), PLAIN|AST|VALUES|FAILURES); }
	check(c, rules, tab, PegText("x"), PLAIN|AST|VALUES|FAILURES);
	c.cases(count+2);
}
MC_CONFIG(pn, "peg_names", names, 3);

/*
 * Larger grammars: many rules, long chains of calls, deep recursion, many captures, long texts
 */
static void sizes(Ctx& c)
{
	int what = c.choose(13), n = 1+c.choose(c.param("n", 30)), v = c.choose(4);
	auto rep = [](const std::string& s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; };
	std::vector<RuleDef> rules(1); rules[0].name = "TOP"; std::vector<std::string> T;
	auto add = [&](const std::string& name, const std::string& pat, std::vector<std::string> caps = std::vector<std::string>()) { RuleDef r; r.name = name; r.pattern = pat; r.captures = caps; rules.push_back(r); };
	auto top = [&](const std::string& pat, std::vector<std::string> caps = std::vector<std::string>()) { rules[0].pattern = pat; rules[0].captures = caps; };
	auto num = [](const char* s, int i) { return s + std::to_string(i); };
	std::vector<std::string> all; std::string alts, seq;
	switch (what) {
	case 0:	// a chain of rules, each calling the next
		for (int i = 0; i < n; i++) add(num("r", i), i+1 < n ? (v == 1 ? "a" : "") + ("<" + num("r", i+1) + ">") + (v == 2 ? "b" : "") : "x", v == 3 ? std::vector<std::string>{num("r", i+1)} : std::vector<std::string>());
		top("<r0>", {"r0"}); T = { (v == 1 ? rep("a", n-1) : "") + "x" + (v == 2 ? rep("b", n-1) : ""), "y", rep("a", n/2)+"y", rep("a", n-1)+"x"+rep("b", n/2) }; break;
	case 1:	// a choice of many rules
		for (int i = 0; i < n; i++) { add(num("k", i), v == 1 ? num("k", n-i) : v == 2 ? rep("k", i+1) + "!k" : num("k", i)+"!\\d"); alts += "|<" + num("k", i) + ">" + (v == 3 ? ":x" : ""); all.push_back(num("k", i)); }
		all.push_back("x"); top(v == 0 ? "*(" + alts + ")" : alts, all); T = { num("k", 0), num("k", n-1), num("k", n/2), num("k", n), rep("k", n), rep("k", n/2+1), num("k", 1)+num("k", n-1)+num("k", 0) }; break;
	case 2:	// nested parentheses
		top(v == 0 ? "|(<TOP>)|x" : v == 1 ? "|(*<TOP>)|x" : v == 2 ? "|(\\(<TOP>\\)|x" : "?(\\(<TOP>\\))", {"TOP"});
		if (v == 0 || v == 2) top("|(\\(<TOP>\\))|x", v ? std::vector<std::string>{"TOP"} : std::vector<std::string>()); if (v == 1) top("|(\\(*<TOP>\\))|x", {"TOP"});
		T = { rep("(", n) + "x" + rep(")", n), rep("(", n) + "x" + rep(")", n-1), rep("(", n), rep("(x", n) + rep(")", n), rep("(", n) + rep(")", n) }; break;
	case 3:	// a list
		add("item", v == 1 ? "+[a-c]:l" : "+[a-c]", v == 1 ? std::vector<std::string>{"l"} : std::vector<std::string>());
		top(v == 2 ? "<item>:first *(,<item>:rest)" : "<item>*(,<item>)", v == 3 ? std::vector<std::string>() : v == 2 ? std::vector<std::string>{"first", "rest"} : std::vector<std::string>{"item"});
		if (v == 2) rules[0].pattern = "<item>:first:*(,<item>:rest)";
		T = { "a" + rep(",bc", n), rep("abc,", n), rep("abc,", n) + "d", rep("a", n) }; break;
	case 4:	// many labels
		for (int i = 0; i < n; i++) { seq += (v == 1 ? "?a:" : "a:") + num("l", v == 2 ? i/2 : i) + ":"; all.push_back(num("l", i)); }
		if (v == 3) std::reverse(all.begin(), all.end());
		top(seq, all); T = { rep("a", n), rep("a", n-1), rep("a", n/2), "" }; break;
	case 5:	// a rule captured under many labels
		add("r", v == 1 ? "a:x b:y" : "+a", {"x", "y"}); if (v == 1) rules[1].pattern = "a:x:b:y";
		for (int i = 0; i < n; i++) { seq += "<r>:" + num("q", v == 3 ? 0 : i) + ":" + (v == 1 ? "" : "b"); all.push_back(num("q", i)); } top(seq, all);
		T = { rep("ab", n), rep("ab", n-1), rep("ab", n-1) + "a" }; break;
	case 6:	// sums of products
		add("sum", "<prod>*([-+]:op:<prod>)", {"prod", "op"}); add("prod", "<atom>*([*/]:op:<atom>)", {"atom", "op"}); add("atom", "|+\\d:num:|\\((<sum>)\\)", {"num", "sum"}); rules.back().pattern = "|+\\d:num:|\\(<sum>\\)"; top("<sum>$", {"sum"});
		T = v == 0 ? std::vector<std::string>{ "1" + rep("+2*3", n) } : v == 1 ? std::vector<std::string>{ rep("(1+", n/4) + "7" + rep(")", n/4) } : v == 2 ? std::vector<std::string>{ rep("1*", n) + "x" } : std::vector<std::string>{ rep("12", n) + "-" + rep("(", n/6) + "4" + rep(")", n/6) + rep("/5", n) }; break;
	case 7:	// failures at one place in many rules
		for (int i = 0; i < n; i++) { add(num("f", i), v == 1 ? "a" + std::string(1, 'b'+i%20) : v == 2 ? "a<" + num("f", (i+1)%n) + ">" : "[b-c]"); alts += "|<" + num("f", i) + ">"; } top("a" + alts); T = { "az", "ay", "aaz", "z" };
		if (v == 3) { top("*a" + alts); T = { rep("a", n) + "z" }; } break;
	case 8:	// long literals
		{ std::string l; for (int i = 0; i < n; i++) l += (char)('c'+i%20); add("lit", l); top(v == 0 ? "<lit>" : v == 1 ? "*<lit>" : v == 2 ? "|<lit>x|<lit>y" : "!<lit>.", {"lit"}); T = { l, l+l, l+"y", l.substr(0, n-1)+"?", l+l.substr(0, n/2) }; } break;
	case 9:	// long names
		{ std::string nm = rep("n", n), lab = rep("L", n); add(nm, "a"); add(nm+"n", "b"); add(rep("n", n > 1 ? n-1 : 3) + (n > 1 ? "" : "n"), "x"); top("<" + nm + ">:" + lab + ":?<" + nm + "n>" + (v == 1 ? ":" + lab + "L" : ""), v == 2 ? std::vector<std::string>{lab+"L", nm+"n", lab} : v == 3 ? std::vector<std::string>{nm} : std::vector<std::string>{lab, lab+"L", nm+"n"}); T = { "a", "ab", "b", "x" }; } break;
	case 10: // repeated and nested captures
		add("w", "+[a-y]:ch", {"ch"}); if (v == 1) rules[1].pattern = "+([a-y]:ch)"; if (v == 2) rules[1].pattern = "+(|ab:ch|[a-y]:other)", rules[1].captures = {"ch", "other"};
		top(v == 3 ? "+(<w>:word:z)" : "+(<w>?z)", {"w", "word"}); T = { rep("abcz", n), rep("a", n), rep("abz", n) + "ab" }; break;
	case 11: // look-aheads over long texts
		add("r", v == 1 ? "*(!b.)b" : v == 2 ? "&(+a b)+a" : "!(*a c)+a"); if (v == 2) rules[1].pattern = "&(+ab)+a"; if (v != 1 && v != 2) rules[1].pattern = "!(*ac)+a"; top(v == 3 ? "*(<r>|b|c)" : "*(|<r>|b|c)", {"r"}); if (v == 3) rules[0].pattern = "*(|&<r>a|b|c)"; T = { rep("a", n) + "b", rep("a", n) + "c", rep("aab", n/2) + "aac" }; break;
	default: // right and indirect left recursion, ended by the text
		add("x", v == 1 ? "|<y>a|b" : "|a<x>|b", {"x", "y"}); add("y", v == 1 ? "|<x>c|d" : "c", {"x"}); top(v == 2 ? "<x><y>" : v == 3 ? "*(|<x>|<y>)" : "<x>", {"x", "y"}); T = { rep("a", n) + "b", rep("a", n) + "bc", rep("a", n), rep("b", n), "dcaca", rep("abc", n) }; break;
	}
	for (size_t i = 1; i < rules.size(); i++) for (size_t j = 1; j < i; j++) if (rules[i].name == rules[j].name) c.prune();
	for (auto& r : rules) { PegParser p(r.pattern, true); if (!p.parse(r.seq) || p.lookahead_label) c.prune(); }
	c.setkey("grammar %d of size %d, variant %d", what, n, v); c.note("%s\n", show(rules).c_str());
	std::vector<int> order; for (size_t i = 0; i < rules.size(); i++) order.push_back(v % 2 ? rules.size()-1-i : i);
	Tables tab(rules, order);
	for (auto& t : T) check(c, rules, tab, PegText(t), PLAIN|AST|FAILURES|VALUES);
	c.cases(T.size());
	c.state(mc::mix(6, std::hash<std::string>()(show(rules) + std::to_string(n))));
}
MC_CONFIG(psz, "peg_sizes", sizes, 3);
