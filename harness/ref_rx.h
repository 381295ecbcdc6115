#ifndef REF_RX_H
#define REF_RX_H
/*
 * A reference reading of the regular expressions of rx/, from the documentation in rx/README.md and
 * rx/strregex.h: parse to a tree, or decide that the expression is malformed (to be rejected), or that the
 * documentation gives it no meaning; then compute the exact set of ends of the matches that start anywhere.
 */
#include <string>
#include "ref_utf8.h"
#include <vector>
#include <set>
#include <cstdint>
#include <algorithm>

namespace rr {
enum Feature {
	CEscapes = 1, Shorthand = 2, OctalChar = 4, HexChar = 8, UnicodeChar = 0x10, PropertyChars = 0x20, CharClasses = 0x40,
	ZeroOrOneQuest = 0x100, ZeroOrMore = 0x200, OneOrMore = 0x400, CountRepetition = 0x800, Alternates = 0x1000, Group = 0x2000,
	Capture = 0x4000, NonCapture = 0x8000, NegLookahead = 0x10000, BOLine = 0x40000, EOLine = 0x80000, All = 0xFFFFF,
	AnyIsQuest = 0x1000000, StarIsAny = 0x2000000, Extended = 0x20000000
};
struct Node;
typedef std::vector<Node> Seq;
struct Node {
	enum Kind { CHAR, ANY, CLASS, PROP, BOL, EOL, GROUP, NAMED, NLA, REP } kind;
	uint32_t ch; bool negated; std::vector<std::pair<uint32_t, uint32_t>> ranges;
	int group, min, max;		// max 0: no maximum
	std::vector<Seq> alts;		// GROUP, NAMED, NLA; REP has one sequence of one node
	Node(Kind k) : kind(k), ch(0), negated(false), group(0), min(0), max(0) {}
};
typedef std::vector<uint32_t> Chars;

struct Parser {
	const Chars& p; size_t i; int on, rejected;
	bool bad, undef;
	int depth, counted;
	std::vector<Chars> names;
	Parser(const Chars& s, int features, int reject) : p(s), i(0), on(features & ~reject), rejected(reject), bad(false), undef(false), depth(1), counted(0) {}
	uint32_t at(size_t k) const { return k < p.size() ? p[k] : 0; }
	uint32_t cur() const { return at(i); }
	bool has(int f) { if (rejected & f) bad = true; return (on & f) != 0; }	// A construct of this feature is written
	static int digit(uint32_t c) { return c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'f' ? c-'a'+10 : c >= 'A' && c <= 'F' ? c-'A'+10 : 99; }
	static bool white(uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

	bool parse(std::vector<Seq>& alts) {
		for (uint32_t c : p) if (c > 0x10FFFF) undef = true;
		alternatives(alts, true);
		return !bad;
	}
	void alternatives(std::vector<Seq>& alts, bool top) {
		alts.push_back(Seq());
		bool repeatable = false;
		while (i < p.size() && !bad) {
			uint32_t c = cur();
			if (c == '|' && has(Alternates)) { i++; alts.push_back(Seq()); repeatable = false; continue; }
			if (c == ')' && (on & Group)) { if (top) bad = true; else i++; return; }
			int min, max, f = 0;
			if (c == '*') { min = 0; max = 0; f = ZeroOrMore; }
			if (c == '+') { min = 1; max = 0; f = OneOrMore; }
			if (c == '?' && (on & AnyIsQuest)) { i++; alts.back().push_back(Node(Node::ANY)); repeatable = true; continue; }
			if (c == '?') { min = 0; max = 1; f = ZeroOrOneQuest; }
			if (c == '{') f = CountRepetition;
			if (f && has(f)) {
				i++;
				if (c == '*' && (on & StarIsAny)) { alts.back().push_back(Node(Node::ANY)); repeatable = true; }
				if (c == '{' && !counts(min, max)) { bad = true; return; }
				if (!repeatable) { bad = true; return; }
				if (c == '{' && max == 0 && min == 0 && !unlimited) undef = true;
				Node r(Node::REP); r.min = min; r.max = max;
				r.alts.push_back(Seq(1, alts.back().back()));
				alts.back().back() = r;
				repeatable = false;
				continue;
			}
			if (bad) return;
			if ((on & Extended) && white(c)) {
				i++;
				if (cur() == '#') { while (i < p.size() && cur() != '\n') i++; if (i < p.size()) i++; }
				continue;
			}
			if ((on & Extended) && c == '#') undef = true;
			atom(alts.back(), repeatable);
		}
		if (!top) bad = true;		// Not closed
	}
	bool unlimited;
	bool number(int& n, bool& given) {
		while (i < p.size() && white(cur())) i++;
		given = false; n = 0;
		if (cur() == '+' || cur() == '-') undef = true;
		for (; i < p.size() && cur() < 128 && digit(cur()) < 10; i++) { given = true; n = std::min(n*10+digit(cur()), 100000); }
		if (cur() > 127) undef = true;
		while (i < p.size() && white(cur())) i++;
		return true;
	}
	bool counts(int& min, int& max) {
		bool g1, g2 = false;
		number(min, g1);
		unlimited = false;
		if (cur() == ',') {
			i++;
			number(max, g2);
			unlimited = !g2;
			if (g2 && max == 0) undef = true;
		} else max = min;
		if (cur() != '}') return false;
		i++;
		if (max && max < min) return false;
		if (min > 254 || max > 254) return false;
		if (max > 0 || min > 0) counted++;
		return true;
	}
	void literal(Seq& s, uint32_t c) { Node n(Node::CHAR); n.ch = c; s.push_back(n); }
	void atom(Seq& s, bool& repeatable) {
		uint32_t c = cur();
		i++;
		repeatable = false;
		if (c == '^' && has(BOLine)) { s.push_back(Node(Node::BOL)); return; }
		if (c == '$' && has(EOLine)) { s.push_back(Node(Node::EOL)); return; }
		repeatable = true;
		if (c == '.' && !(on & AnyIsQuest)) { s.push_back(Node(Node::ANY)); return; }
		if (c == '[' && has(CharClasses)) { cls(s); return; }
		if (c == '(' && has(Group)) { group(s); return; }
		if (c == '\\') { escape(s); return; }
		if (!bad) literal(s, c);
	}
	void escape(Seq& s) {
		if (i >= p.size()) { undef = true; return; }
		uint32_t c = cur(); i++;
		if (c < 128 && strchr("beftnr", (int)c) && has(CEscapes)) {
			static const char from[] = "beftnr", to[] = "\b\033\f\t\n\r";
			literal(s, to[strchr(from, (int)c)-from]); return;
		}
		int radix = 0, max = 0;
		if (c >= '0' && c <= '7') { if (has(OctalChar)) { radix = 8; max = 3; i--; } else if (c == '0' && (on & CEscapes)) undef = true; }
		else if (c == 'x') { if (has(HexChar)) { radix = 16; max = 2; } }
		else if (c == 'u') { if (has(UnicodeChar)) { radix = 16; max = 5; } }
		if (radix) {
			uint32_t v = 0; int n = 0;
			for (; n < max && digit(cur()) < radix && i < p.size(); n++, i++) v = v*radix + digit(cur());
			if (n == 0) bad = true;
			if (n < max && cur() > 127) undef = true;		// There are digits beyond ASCII
			literal(s, v);
			return;
		}
		if ((c == 's' || c == 'd' || c == 'h') && has(Shorthand)) { Node n(Node::PROP); n.ch = c; s.push_back(n); return; }
		if (c == 'p' && has(PropertyChars)) {
			if (cur() != '{') { bad = true; return; }
			size_t e = i+1;
			while (e < p.size() && p[e] != '}') e++;
			if (e >= p.size() || e == i+1) { bad = true; return; }
			Node n(Node::PROP); n.ch = p[i+1];
			if (e != i+2 || (n.ch != 's' && n.ch != 'd' && n.ch != 'h')) undef = true;	// To be implemented
			i = e+1;
			s.push_back(n);
			return;
		}
		literal(s, c);
	}
	void cls(Seq& s) {
		Node n(Node::CLASS);
		if (cur() == '^') { n.negated = true; i++; }
		if (cur() == '-' || cur() == ']') {
			n.ranges.push_back(std::make_pair(cur(), cur())); i++;
			if (cur() == '-' && at(i+1) != ']') undef = true;
		}
		while (i < p.size() && cur() != ']') {
			uint32_t lo = cur();
			if (lo == '\\') { i++; if (i >= p.size()) { bad = true; return; } lo = cur(); }
			i++;
			uint32_t hi = lo;
			if (cur() == '-' && at(i+1) != ']') {
				i++;
				if (i >= p.size()) { bad = true; return; }
				hi = cur();
				if (hi == '\\') { i++; if (i >= p.size()) { bad = true; return; } hi = cur(); }
				i++;
				if (hi < lo) undef = true;
				if (cur() == '-' && at(i+1) != ']') undef = true;
			}
			n.ranges.push_back(std::make_pair(lo, hi));
		}
		if (i >= p.size()) { bad = true; return; }
		i++;
		s.push_back(n);
	}
	void group(Seq& s) {
		Node n(Node::GROUP);
		if ((on & (Capture|NonCapture|NegLookahead)) && cur() == '?') {
			uint32_t c = at(i+1);
			int f = c == '<' ? Capture : c == ':' ? NonCapture : c == '!' ? NegLookahead : 0;
			if (!f || !has(f)) { bad = true; return; }
			i += 2;
			if (c == '<') {
				size_t e = i;
				while (e < p.size() && p[e] != '>') e++;
				if (e >= p.size() || e == i) { bad = true; return; }
				Chars name(p.begin()+i, p.begin()+e);
				for (auto& x : names) if (x == name) bad = true;
				names.push_back(name);
				if (names.size() > 254) bad = true;
				n.kind = Node::NAMED; n.group = names.size();
				i = e+1;
			}
			if (c == '!') n.kind = Node::NLA;
		} else if (rejected & (Capture|NonCapture|NegLookahead) && !(on & (Capture|NonCapture|NegLookahead)) && cur() == '?') undef = true;
		if (++depth > 12) { bad = true; return; }
		alternatives(n.alts, false);
		depth--;
		s.push_back(n);
	}
};

struct Matcher {
	const Chars& t;
	typedef uint64_t Set;			// Positions in the text
	Matcher(const Chars& x) : t(x) {}
	static bool prop(uint32_t p, uint32_t c) {
		if (c >= 128) {		// As C04 checks
			if (p == 's') return ref_white(c);
			return UCS4Digit(c) >= 0;
		}
		bool d = c >= '0' && c <= '9';
		switch (p) {
		case 's': return c == ' ' || c == '\t' || c == '\n' || c == '\r';
		case 'd': return d;
		case 'h': return d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
		}
		return false;
	}
	bool one(const Node& n, size_t pos) const {
		if (pos >= t.size()) return false;
		uint32_t c = t[pos];
		switch (n.kind) {
		case Node::CHAR: return c == n.ch;
		case Node::ANY: return true;
		case Node::PROP: return prop(n.ch, c);
		default: break;
		}
		bool in = false;
		for (auto& r : n.ranges) in = in || (c >= r.first && c <= r.second);
		return in != n.negated;
	}
	bool here(const Node& n, size_t pos) const {	// An assertion
		if (n.kind == Node::BOL) return pos == 0 || t[pos-1] == '\n';
		if (n.kind == Node::EOL) return pos == t.size() || t[pos] == '\n';
		return !alts(n.alts, Set(1) << pos);
	}
	Set alts(const std::vector<Seq>& a, Set from) const {
		Set r = 0;
		for (auto& s : a) { Set x = from; for (auto& n : s) x = node(n, x); r |= x; }
		return r;
	}
	Set node(const Node& n, Set from) const {
		Set r = 0;
		switch (n.kind) {
		case Node::GROUP: case Node::NAMED: return alts(n.alts, from);
		case Node::REP: {
			Set x = from;
			for (int i = 0; i < n.min && x; i++) x = alts(n.alts, x);
			r = x;
			for (int i = n.min; n.max == 0 || i < n.max; i++) { x = alts(n.alts, x); if (!(x & ~r) && n.max == 0) break; if (!x) break; r |= x; }
			return r;
		}
		case Node::BOL: case Node::EOL: case Node::NLA:
			for (size_t p = 0; p <= t.size(); p++) if ((from >> p & 1) && here(n, p)) r |= Set(1) << p;
			return r;
		default:
			for (size_t p = 0; p < t.size(); p++) if ((from >> p & 1) && one(n, p)) r |= Set(2) << p;
			return r;
		}
	}

	// Is there a way to match from start to end in which each group is last passed over exactly its capture, or never?
	struct Span { size_t from, to; };
	std::vector<Span> spans;		// Of the groups; both zero may mean never
	typedef std::set<std::pair<size_t, uint32_t>> States;	// Position, and for each group 0 never 1 as captured 2 otherwise
	States all(const std::vector<Seq>& a, const States& from) const {
		States r;
		for (auto& s : a) { States x = from; for (auto& n : s) x = pass(n, x); r.insert(x.begin(), x.end()); }
		return r;
	}
	States pass(const Node& n, const States& from) const {
		States r;
		switch (n.kind) {
		case Node::GROUP: return all(n.alts, from);
		case Node::NAMED:
			for (auto& s : from) {
				States in; in.insert(s);
				in = all(n.alts, in);
				for (auto& e : in) {
					const Span& sp = spans[n.group];
					uint32_t f = s.first == sp.from && e.first == sp.to ? 1 : 2;
					r.insert(std::make_pair(e.first, (e.second & ~(3u << 2*n.group)) | f << 2*n.group));
				}
			}
			return r;
		case Node::REP: {
			States x = from;
			for (int i = 0; i < n.min; i++) x = all(n.alts, x);
			r = x;
			for (int i = n.min; n.max == 0 || i < n.max; i++) {
				x = all(n.alts, x);
				size_t was = r.size();
				r.insert(x.begin(), x.end());
				if (r.size() == was) break;
			}
			return r;
		}
		case Node::BOL: case Node::EOL: case Node::NLA:
			for (auto& s : from) if (here(n, s.first)) r.insert(s);
			return r;
		default:
			for (auto& s : from) if (one(n, s.first)) r.insert(std::make_pair(s.first+1, s.second));
			return r;
		}
	}
	bool coherent(const std::vector<Seq>& a, size_t start, size_t end) const {
		States in; in.insert(std::make_pair(start, 0u));
		for (auto& s : all(a, in)) {
			if (s.first != end) continue;
			bool ok = true;
			for (size_t g = 1; g < spans.size(); g++) {
				uint32_t f = s.second >> 2*g & 3;
				if (f == 2 || (f == 0 && (spans[g].from || spans[g].to))) ok = false;
			}
			if (ok) return true;
		}
		return false;
	}
};
}
#endif
